From 1c9627386a72ab5245bb62f44349d2c131c8581d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:40 +0000
Subject: [PATCH 01/55] fix: WKB reader wraps the coordinate byte count and
 never consumes it

bytes_needed was computed in 32 bits and size_bytes was not decreased after a
coordinate sequence, so a crafted size made the reader hand out (and byte-swap)
coordinates beyond the input.
---
 src/geoarrow/wkb_reader.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/geoarrow/wkb_reader.c b/src/geoarrow/wkb_reader.c
index 3fb003a..87f5c7d 100644
--- a/src/geoarrow/wkb_reader.c
+++ b/src/geoarrow/wkb_reader.c
@@ -52,7 +52,7 @@ static inline int WKBReaderReadUInt32(struct WKBReaderPrivate* s, uint32_t* out,
 static inline GeoArrowErrorCode WKBReaderReadNodeCoordinates(
     struct WKBReaderPrivate* s, uint32_t n_coords, uint32_t coord_size_elements,
     struct GeoArrowGeometryNode* node, struct GeoArrowError* error) {
-  int64_t bytes_needed = n_coords * coord_size_elements * sizeof(double);
+  int64_t bytes_needed = (int64_t)n_coords * coord_size_elements * sizeof(double);
   if (s->size_bytes < bytes_needed) {
     GeoArrowErrorSet(
         error,
@@ -71,6 +71,7 @@ static inline GeoArrowErrorCode WKBReaderReadNodeCoordinates(
   }
 
   s->data += bytes_needed;
+  s->size_bytes -= bytes_needed;
   return GEOARROW_OK;
 }
 
-- 
2.43.0


From 6e809a61164ea9dd6f3e3c0db9372bb9e43e0e2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:27 +0000
Subject: [PATCH 02/55] fix: return an error when a geometry's node list is too
 short

GeoArrowGeometryVisitNode() set the error message but went on to read the
missing node.
---
 src/geoarrow/geometry.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/geoarrow/geometry.c b/src/geoarrow/geometry.c
index 650b2a5..469159a 100644
--- a/src/geoarrow/geometry.c
+++ b/src/geoarrow/geometry.c
@@ -452,6 +452,7 @@ static GeoArrowErrorCode GeoArrowGeometryVisitNode(
     struct GeoArrowVisitor* v) {
   if ((*n_nodes)-- <= 0) {
     GeoArrowErrorSet(v->error, "Too few nodes provided to GeoArrowGeometryVisit()");
+    return EINVAL;
   }
 
   GEOARROW_RETURN_NOT_OK(v->geom_start(v, (enum GeoArrowGeometryType)node->geometry_type,
-- 
2.43.0


From 14b048ab1dfe6734b51e347346ab50862f8032a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:46 +0000
Subject: [PATCH 03/55] fix: refuse to visit a sequence node without valid
 dimensions

A node with unknown dimensions was expanded with -1 values per coordinate, and
one beyond XYZM indexed past the dimension table.
---
 src/geoarrow/geometry.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/geoarrow/geometry.c b/src/geoarrow/geometry.c
index 469159a..1c19e66 100644
--- a/src/geoarrow/geometry.c
+++ b/src/geoarrow/geometry.c
@@ -413,6 +413,12 @@ static GeoArrowErrorCode GeoArrowGeometryVisitSequence(
     const struct GeoArrowGeometryNode* node, struct GeoArrowVisitor* v) {
   double coords[COORD_CACHE_SIZE_ELEMENTS];
   struct GeoArrowCoordView coord_view;
+  if (node->dimensions < GEOARROW_DIMENSIONS_XY ||
+      node->dimensions > GEOARROW_DIMENSIONS_XYZM) {
+    GeoArrowErrorSet(v->error, "Invalid dimensions: %d", (int)node->dimensions);
+    return EINVAL;
+  }
+
   coord_view.n_values = _GeoArrowkNumDimensions[node->dimensions];
   for (int i = 0; i < coord_view.n_values; i++) {
     coord_view.values[i] = coords + i;
-- 
2.43.0


From 07ff19f09dee27076feb94fc46cb7a48aefe9846 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:03 +0000
Subject: [PATCH 04/55] fix: clear the byte swap flag of deep-copied geometry
 nodes

GeoArrowGeometryDeepCopy() copies coordinates in native byte order but kept
the swap flag, so the copy was swapped a second time when read.
---
 src/geoarrow/geometry.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/geoarrow/geometry.c b/src/geoarrow/geometry.c
index 1c19e66..d10bc2a 100644
--- a/src/geoarrow/geometry.c
+++ b/src/geoarrow/geometry.c
@@ -140,6 +140,9 @@ GeoArrowErrorCode GeoArrowGeometryDeepCopy(struct GeoArrowGeometryView src,
           node->coord_stride[i] = n_values * sizeof(double);
         }
 
+        // The copied coordinates are always in native byte order
+        node->flags &= (uint8_t)~GEOARROW_GEOMETRY_NODE_FLAG_SWAP_ENDIAN;
+
         coords_buf += bytes_written;
         coords_buf_size -= bytes_written;
         break;
-- 
2.43.0


From 316e0f871190da86ed0f357f26fec83505a03780 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:17 +0000
Subject: [PATCH 05/55] fix: set sizes of nested geometries that have no
 coordinates

feat_end returned early without any coordinate, leaving the size of
collections and polygons with only empty parts at zero and the geometry
unexportable.
---
 src/geoarrow/geometry.c | 5 -----
 1 file changed, 5 deletions(-)

diff --git a/src/geoarrow/geometry.c b/src/geoarrow/geometry.c
index d10bc2a..e60a4fe 100644
--- a/src/geoarrow/geometry.c
+++ b/src/geoarrow/geometry.c
@@ -355,11 +355,6 @@ static int feat_end_geometry(struct GeoArrowVisitor* v) {
     return EINVAL;
   }
 
-  if (private_data->coords.size_bytes == 0) {
-    // Can happen for empty collections where there was never a sequence
-    return GEOARROW_OK;
-  }
-
   // Set sequence lengths by rolling backwards through the sequences. We recorded
   // the start position for each sequence in geom_start, so we can calculate the
   // size based on the distance between the pointers.
-- 
2.43.0


From d5ef17620ba481d65cfdba7f95a02a96edd605b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:24 +0000
Subject: [PATCH 06/55] fix: WKB writer visitor wrote out of bounds on
 unbalanced callbacks

ring_end and geom_end at the root level (or closing a point as a ring) used a
size position that was never set or belonged to an earlier batch, and feat_end
before feat_start reserved a bitmap of length -1.
---
 src/geoarrow/wkb_writer.c | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/geoarrow/wkb_writer.c b/src/geoarrow/wkb_writer.c
index 7ebb701..27396cc 100644
--- a/src/geoarrow/wkb_writer.c
+++ b/src/geoarrow/wkb_writer.c
@@ -115,8 +115,9 @@ static int coords_wkb(struct GeoArrowVisitor* v, const struct GeoArrowCoordView*
 
 static int ring_end_wkb(struct GeoArrowVisitor* v) {
   struct WKBWriterPrivate* private = (struct WKBWriterPrivate*)v->private_data;
-  NANOARROW_RETURN_NOT_OK(WKBWriterCheckLevel(private));
-  if (private->values.data == NULL) {
+  // Rings are recorded with GEOARROW_GEOMETRY_TYPE_GEOMETRY
+  if (private->level <= 0 || private->values.data == NULL ||
+      private->geometry_type[private->level] != GEOARROW_GEOMETRY_TYPE_GEOMETRY) {
     return EINVAL;
   }
   memcpy(private->values.data + private->size_pos[private->level],
@@ -127,8 +128,7 @@ static int ring_end_wkb(struct GeoArrowVisitor* v) {
 
 static int geom_end_wkb(struct GeoArrowVisitor* v) {
   struct WKBWriterPrivate* private = (struct WKBWriterPrivate*)v->private_data;
-  NANOARROW_RETURN_NOT_OK(WKBWriterCheckLevel(private));
-  if (private->values.data == NULL) {
+  if (private->level <= 0 || private->values.data == NULL) {
     return EINVAL;
   }
 
@@ -164,6 +164,9 @@ static int geom_end_wkb(struct GeoArrowVisitor* v) {
 
 static int feat_end_wkb(struct GeoArrowVisitor* v) {
   struct WKBWriterPrivate* private = (struct WKBWriterPrivate*)v->private_data;
+  if (private->length == 0) {
+    return EINVAL;
+  }
 
   if (private->feat_is_null) {
     if (private->validity.buffer.data == NULL) {
@@ -187,6 +190,7 @@ GeoArrowErrorCode GeoArrowWKBWriterInit(struct GeoArrowWKBWriter* writer) {
     return ENOMEM;
   }
 
+  memset(private, 0, sizeof(struct WKBWriterPrivate));
   private->storage_type = NANOARROW_TYPE_BINARY;
   private->length = 0;
   private->level = 0;
@@ -234,6 +238,7 @@ GeoArrowErrorCode GeoArrowWKBWriterFinish(struct GeoArrowWKBWriter* writer,
   array->null_count = private->null_count;
   private->length = 0;
   private->null_count = 0;
+  private->level = 0;
   return ArrowArrayFinishBuildingDefault(array, (struct ArrowError*)error);
 }
 
-- 
2.43.0


From 5f3226d22873afef422571702843cdf6b1be3169 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:41 +0000
Subject: [PATCH 07/55] fix: WKT writer visitor used uninitialised state on
 unbalanced callbacks

Callbacks before feat_start (or after a refused geom_start) read state that was
never set, and feat_end before feat_start reserved a bitmap of length -1.
---
 src/geoarrow/wkt_writer.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/geoarrow/wkt_writer.c b/src/geoarrow/wkt_writer.c
index 40e206c..bc60bdd 100644
--- a/src/geoarrow/wkt_writer.c
+++ b/src/geoarrow/wkt_writer.c
@@ -247,6 +247,9 @@ static int geom_end_wkt(struct GeoArrowVisitor* v) {
 
 static int feat_end_wkt(struct GeoArrowVisitor* v) {
   struct WKTWriterPrivate* private = (struct WKTWriterPrivate*)v->private_data;
+  if (private->length == 0) {
+    return EINVAL;
+  }
 
   if (private->feat_is_null) {
     if (private->validity.buffer.data == NULL) {
@@ -277,9 +280,10 @@ GeoArrowErrorCode GeoArrowWKTWriterInit(struct GeoArrowWKTWriter* writer) {
     return ENOMEM;
   }
 
+  memset(private, 0, sizeof(struct WKTWriterPrivate));
   private->storage_type = NANOARROW_TYPE_STRING;
   private->length = 0;
-  private->level = 0;
+  private->level = -1;
   private->null_count = 0;
   ArrowBitmapInit(&private->validity);
   ArrowBufferInit(&private->offsets);
-- 
2.43.0


From 264cc28da163ba0d5f961c7db7e5dde64b66fa70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:56 +0000
Subject: [PATCH 08/55] fix: refuse geom_start without valid dimensions or
 beyond maximum nesting before recording it

GeoArrowGeometry's visitor appended the node first, so that a later feat_end
divided by a zero stride or indexed the level counters out of bounds.
---
 src/geoarrow/geometry.c | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/src/geoarrow/geometry.c b/src/geoarrow/geometry.c
index e60a4fe..5ed164d 100644
--- a/src/geoarrow/geometry.c
+++ b/src/geoarrow/geometry.c
@@ -240,6 +240,17 @@ static int geom_start_geometry(struct GeoArrowVisitor* v,
   struct GeoArrowGeometry* geom = (struct GeoArrowGeometry*)v->private_data;
   struct GeoArrowGeometryPrivate* private_data =
       (struct GeoArrowGeometryPrivate*)geom->private_data;
+
+  if (private_data->current_level == GEOARROW_GEOMETRY_VISITOR_MAX_NESTING) {
+    GeoArrowErrorSet(v->error, "Maximum recursion for GeoArrowGeometry visitor reached");
+    return EINVAL;
+  }
+
+  if (dimensions < GEOARROW_DIMENSIONS_XY || dimensions > GEOARROW_DIMENSIONS_XYZM) {
+    GeoArrowErrorSet(v->error, "Invalid dimensions: %d", (int)dimensions);
+    return EINVAL;
+  }
+
   struct GeoArrowGeometryNode* node;
   GEOARROW_RETURN_NOT_OK(GeoArrowGeometryAppendNodeInline(geom, &node));
   node->geometry_type = (uint8_t)geometry_type;
@@ -267,11 +278,6 @@ static int geom_start_geometry(struct GeoArrowVisitor* v,
       break;
   }
 
-  if (private_data->current_level == GEOARROW_GEOMETRY_VISITOR_MAX_NESTING) {
-    GeoArrowErrorSet(v->error, "Maximum recursion for GeoArrowGeometry visitor reached");
-    return EINVAL;
-  }
-
   private_data->current_level++;
   return GEOARROW_OK;
 }
-- 
2.43.0


From 1a60123f0cb03c9a6bdbf7f9ee44b019d44ef772 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:43 +0000
Subject: [PATCH 09/55] fix: refuse numbers followed by other characters when
 parsing with fast_float

GeoArrowFromChars() ignored where the number ended, so that "POINT (1abc 2)"
was read as POINT (1 2); the strtod-based variant already checks this.
---
 src/geoarrow/double_parse_fast_float.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/geoarrow/double_parse_fast_float.cc b/src/geoarrow/double_parse_fast_float.cc
index db57722..7bd5453 100644
--- a/src/geoarrow/double_parse_fast_float.cc
+++ b/src/geoarrow/double_parse_fast_float.cc
@@ -13,7 +13,7 @@ extern "C" GeoArrowErrorCode GeoArrowFromChars(const char* first, const char* la
   auto answer = fast_float::from_chars(first, last, *out);
 #endif
 
-  if (answer.ec != std::errc()) {
+  if (answer.ec != std::errc() || answer.ptr != last) {
     return EINVAL;
   } else {
     return GEOARROW_OK;
-- 
2.43.0


From 41b29611ea9e1b2670f744cf2ba8d428abfa11d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:04 +0000
Subject: [PATCH 10/55] fix: native writer carried an unfinished feature into
 the next batch

---
 src/geoarrow/native_writer.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/geoarrow/native_writer.c b/src/geoarrow/native_writer.c
index 97e84c2..1b93f5a 100644
--- a/src/geoarrow/native_writer.c
+++ b/src/geoarrow/native_writer.c
@@ -102,6 +102,12 @@ static GeoArrowErrorCode GeoArrowNativeWriterEnsureOutputInitialized(
   NANOARROW_RETURN_NOT_OK(ArrowBitmapResize(&private_data->validity, 0, 0));
   memset(private_data->last_offset, 0, sizeof(private_data->last_offset));
 
+  // A feature left unfinished in the previous batch is not continued in the next one
+  private_data->feat_is_null = 0;
+  private_data->nesting_multipoint = 0;
+  memset(private_data->size, 0, sizeof(private_data->size));
+  private_data->level = 0;
+
   private_data->builder.view.coords.size_coords = 0;
   private_data->builder.view.coords.capacity_coords = 0;
 
-- 
2.43.0


From 216f3fa62121c1436bf20725ea0b363c29049d3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:56 +0000
Subject: [PATCH 11/55] fix: WKT reader ignored everything after an embedded
 NUL character

---
 src/geoarrow/wkt_reader.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/geoarrow/wkt_reader.c b/src/geoarrow/wkt_reader.c
index 18b2918..af8d7a2 100644
--- a/src/geoarrow/wkt_reader.c
+++ b/src/geoarrow/wkt_reader.c
@@ -525,7 +525,7 @@ GeoArrowErrorCode GeoArrowWKTReaderVisit(struct GeoArrowWKTReader* reader,
   NANOARROW_RETURN_NOT_OK(ReadTaggedGeometry(s, v));
   NANOARROW_RETURN_NOT_OK(v->feat_end(v));
   GeoArrowWKTSkipWhitespace(s);
-  if (PeekChar(s) != '\0') {
+  if (s->size_bytes > 0) {
     SetParseErrorAuto("end of input", s, v->error);
     return EINVAL;
   }
-- 
2.43.0


From 28e79511a9572989030d03d9d27454e7af07b674 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:14 +0000
Subject: [PATCH 12/55] fix: WKT reader recursed without bound on nested
 collections

---
 src/geoarrow/wkt_reader.c | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/src/geoarrow/wkt_reader.c b/src/geoarrow/wkt_reader.c
index af8d7a2..1566830 100644
--- a/src/geoarrow/wkt_reader.c
+++ b/src/geoarrow/wkt_reader.c
@@ -8,10 +8,15 @@
 
 #define COORD_CACHE_SIZE_COORDS 64
 
+// Matches the maximum recursion of the WKB reader
+#define GEOARROW_WKT_READER_MAX_NESTING 255
+
 struct WKTReaderPrivate {
   const char* data;
   int64_t size_bytes;
   const char* data0;
+  // Depth of the geometry collection being read
+  int32_t level;
   double coords[4 * COORD_CACHE_SIZE_COORDS];
   struct GeoArrowCoordView coord_view;
 };
@@ -387,6 +392,12 @@ static inline int ReadGeometryCollection(struct WKTReaderPrivate* s,
                                          struct GeoArrowVisitor* v) {
   GeoArrowWKTSkipWhitespace(s);
   if (PeekChar(s) == '(') {
+    if (s->level == GEOARROW_WKT_READER_MAX_NESTING) {
+      GeoArrowErrorSet(v->error, "WKTReader exceeded maximum recursion");
+      return EINVAL;
+    }
+
+    s->level++;
     GeoArrowWKTAdvanceUnsafe(s, 1);
     GeoArrowWKTSkipWhitespace(s);
 
@@ -403,6 +414,7 @@ static inline int ReadGeometryCollection(struct WKTReaderPrivate* s,
       GeoArrowWKTSkipWhitespace(s);
     }
 
+    s->level--;
     GeoArrowWKTAdvanceUnsafe(s, 1);
     return GEOARROW_OK;
   }
@@ -498,6 +510,7 @@ GeoArrowErrorCode GeoArrowWKTReaderInit(struct GeoArrowWKTReader* reader) {
   s->data0 = NULL;
   s->data = NULL;
   s->size_bytes = 0;
+  s->level = 0;
 
   s->coord_view.coords_stride = 1;
   s->coord_view.values[0] = s->coords;
@@ -520,6 +533,7 @@ GeoArrowErrorCode GeoArrowWKTReaderVisit(struct GeoArrowWKTReader* reader,
   s->data0 = src.data;
   s->data = src.data;
   s->size_bytes = src.size_bytes;
+  s->level = 0;
 
   NANOARROW_RETURN_NOT_OK(v->feat_start(v));
   NANOARROW_RETURN_NOT_OK(ReadTaggedGeometry(s, v));
-- 
2.43.0


From 230de6eec79b28030857fe746e2714944294a785 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:52 +0000
Subject: [PATCH 13/55] fix: WKT reader rejected flat multipoints with leading
 whitespace or empty points

---
 src/geoarrow/wkt_reader.c | 64 ++++++++++++---------------------------
 1 file changed, 20 insertions(+), 44 deletions(-)

diff --git a/src/geoarrow/wkt_reader.c b/src/geoarrow/wkt_reader.c
index 1566830..a38241e 100644
--- a/src/geoarrow/wkt_reader.c
+++ b/src/geoarrow/wkt_reader.c
@@ -202,36 +202,6 @@ static inline int ReadEmptyOrCoordinates(struct WKTReaderPrivate* s,
   return GeoArrowWKTAssertWordEmpty(s, v->error);
 }
 
-static inline int ReadMultipointFlat(struct WKTReaderPrivate* s,
-                                     struct GeoArrowVisitor* v,
-                                     enum GeoArrowDimensions dimensions) {
-  NANOARROW_RETURN_NOT_OK(GeoArrowWKTAssertChar(s, '(', v->error));
-
-  // Read the first coordinate (there must always be one)
-  NANOARROW_RETURN_NOT_OK(v->geom_start(v, GEOARROW_GEOMETRY_TYPE_POINT, dimensions));
-  ResetCoordCache(s);
-  NANOARROW_RETURN_NOT_OK(ReadCoordinate(s, v));
-  NANOARROW_RETURN_NOT_OK(FlushCoordCache(s, v));
-  NANOARROW_RETURN_NOT_OK(v->geom_end(v));
-  GeoArrowWKTSkipWhitespace(s);
-
-  // Read the rest of the coordinates
-  while (PeekChar(s) != ')') {
-    GeoArrowWKTSkipWhitespace(s);
-    NANOARROW_RETURN_NOT_OK(GeoArrowWKTAssertChar(s, ',', v->error));
-    GeoArrowWKTSkipWhitespace(s);
-    NANOARROW_RETURN_NOT_OK(v->geom_start(v, GEOARROW_GEOMETRY_TYPE_POINT, dimensions));
-    ResetCoordCache(s);
-    NANOARROW_RETURN_NOT_OK(ReadCoordinate(s, v));
-    NANOARROW_RETURN_NOT_OK(FlushCoordCache(s, v));
-    NANOARROW_RETURN_NOT_OK(v->geom_end(v));
-    GeoArrowWKTSkipWhitespace(s);
-  }
-
-  GeoArrowWKTAdvanceUnsafe(s, 1);
-  return GEOARROW_OK;
-}
-
 static inline int ReadEmptyOrPointCoordinate(struct WKTReaderPrivate* s,
                                              struct GeoArrowVisitor* v) {
   GeoArrowWKTSkipWhitespace(s);
@@ -280,6 +250,24 @@ static inline int ReadPolygon(struct WKTReaderPrivate* s, struct GeoArrowVisitor
   return GeoArrowWKTAssertWordEmpty(s, v->error);
 }
 
+static inline int ReadMultipointItem(struct WKTReaderPrivate* s,
+                                     struct GeoArrowVisitor* v,
+                                     enum GeoArrowDimensions dimensions) {
+  NANOARROW_RETURN_NOT_OK(v->geom_start(v, GEOARROW_GEOMETRY_TYPE_POINT, dimensions));
+
+  // Both MULTIPOINT (1 2, EMPTY) and MULTIPOINT ((1 2), EMPTY) have to parse here:
+  // if it doesn't look like the verbose version, try the flat version
+  if (PeekChar(s) == '(' || PeekChar(s) == 'E') {
+    NANOARROW_RETURN_NOT_OK(ReadEmptyOrPointCoordinate(s, v));
+  } else {
+    ResetCoordCache(s);
+    NANOARROW_RETURN_NOT_OK(ReadCoordinate(s, v));
+    NANOARROW_RETURN_NOT_OK(FlushCoordCache(s, v));
+  }
+
+  return v->geom_end(v);
+}
+
 static inline int ReadMultipoint(struct WKTReaderPrivate* s, struct GeoArrowVisitor* v,
                                  enum GeoArrowDimensions dimensions) {
   GeoArrowWKTSkipWhitespace(s);
@@ -287,18 +275,8 @@ static inline int ReadMultipoint(struct WKTReaderPrivate* s, struct GeoArrowVisi
     GeoArrowWKTAdvanceUnsafe(s, 1);
     GeoArrowWKTSkipWhitespace(s);
 
-    // Both MULTIPOINT (1 2, 2 3) and MULTIPOINT ((1 2), (2 3)) have to parse here
-    // if it doesn't look like the verbose version, try the flat version
-    if (PeekChar(s) != '(' && PeekChar(s) != 'E') {
-      s->data--;
-      s->size_bytes++;
-      return ReadMultipointFlat(s, v, dimensions);
-    }
-
     // Read the first geometry (there must always be one)
-    NANOARROW_RETURN_NOT_OK(v->geom_start(v, GEOARROW_GEOMETRY_TYPE_POINT, dimensions));
-    NANOARROW_RETURN_NOT_OK(ReadEmptyOrPointCoordinate(s, v));
-    NANOARROW_RETURN_NOT_OK(v->geom_end(v));
+    NANOARROW_RETURN_NOT_OK(ReadMultipointItem(s, v, dimensions));
     GeoArrowWKTSkipWhitespace(s);
 
     // Read the rest of the geometries
@@ -306,9 +284,7 @@ static inline int ReadMultipoint(struct WKTReaderPrivate* s, struct GeoArrowVisi
       GeoArrowWKTSkipWhitespace(s);
       NANOARROW_RETURN_NOT_OK(GeoArrowWKTAssertChar(s, ',', v->error));
       GeoArrowWKTSkipWhitespace(s);
-      NANOARROW_RETURN_NOT_OK(v->geom_start(v, GEOARROW_GEOMETRY_TYPE_POINT, dimensions));
-      NANOARROW_RETURN_NOT_OK(ReadEmptyOrPointCoordinate(s, v));
-      NANOARROW_RETURN_NOT_OK(v->geom_end(v));
+      NANOARROW_RETURN_NOT_OK(ReadMultipointItem(s, v, dimensions));
       GeoArrowWKTSkipWhitespace(s);
     }
 
-- 
2.43.0


From 062ef0383705ede90c78cdbe4e6fd074235833b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:21 +0000
Subject: [PATCH 14/55] fix: WKT size limit was not applied after a null
 feature

---
 src/geoarrow/wkt_writer.c | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/geoarrow/wkt_writer.c b/src/geoarrow/wkt_writer.c
index bc60bdd..d4c5cdf 100644
--- a/src/geoarrow/wkt_writer.c
+++ b/src/geoarrow/wkt_writer.c
@@ -251,6 +251,13 @@ static int feat_end_wkt(struct GeoArrowVisitor* v) {
     return EINVAL;
   }
 
+  if (private->max_element_size_bytes >= 0 &&
+      (private->values.size_bytes - private->values_feat_start) >
+          private->max_element_size_bytes) {
+    private->values.size_bytes =
+        private->values_feat_start + private->max_element_size_bytes;
+  }
+
   if (private->feat_is_null) {
     if (private->validity.buffer.data == NULL) {
       NANOARROW_RETURN_NOT_OK(ArrowBitmapReserve(&private->validity, private->length));
@@ -263,13 +270,6 @@ static int feat_end_wkt(struct GeoArrowVisitor* v) {
     return ArrowBitmapAppend(&private->validity, 1, 1);
   }
 
-  if (private->max_element_size_bytes >= 0 &&
-      (private->values.size_bytes - private->values_feat_start) >
-          private->max_element_size_bytes) {
-    private->values.size_bytes =
-        private->values_feat_start + private->max_element_size_bytes;
-  }
-
   return GEOARROW_OK;
 }
 
-- 
2.43.0


From 3dc1fd84a148490b0d710dcd3f457c087489a3dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:49 +0000
Subject: [PATCH 15/55] fix: refuse hexadecimal and space-prefixed numbers when
 parsing with strtod

---
 src/geoarrow/double_parse_std.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/geoarrow/double_parse_std.c b/src/geoarrow/double_parse_std.c
index 51b37de..d880a43 100644
--- a/src/geoarrow/double_parse_std.c
+++ b/src/geoarrow/double_parse_std.c
@@ -21,6 +21,13 @@ GeoArrowErrorCode GeoArrowFromChars(const char* first, const char* last, double*
     return EINVAL;
   }
 
+  // strtod() also accepts leading whitespace and hexadecimal floats
+  for (const char* c = first; c < last; c++) {
+    if (*c == 'x' || *c == 'X' || *c == ' ' || (*c >= '\t' && *c <= '\r')) {
+      return EINVAL;
+    }
+  }
+
   memcpy(src_copy, first, size_bytes);
   char* last_copy = src_copy + size_bytes;
   *last_copy = '\0';
-- 
2.43.0


From 091be1adb82bba9bbcf13d5f016a1c27ba5a37e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:42 +0000
Subject: [PATCH 16/55] fix: printing with precision 0 dropped zeroes of the
 integer part

---
 src/geoarrow/double_print.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/geoarrow/double_print.c b/src/geoarrow/double_print.c
index a4f8d3f..d5730c0 100644
--- a/src/geoarrow/double_print.c
+++ b/src/geoarrow/double_print.c
@@ -32,6 +32,11 @@ int64_t GeoArrowPrintDouble(double f, uint32_t precision, char* result) {
     n_chars = 39;
   }
 
+  // Without a decimal point, trailing zeroes are part of the integer
+  if (precision == 0) {
+    return n_chars;
+  }
+
   // Strip trailing zeroes + decimal
   for (int64_t i = n_chars - 1; i >= 0; i--) {
     if (result[i] == '0') {
-- 
2.43.0


From 06c813d5b5e5c7df5176c1e01bba6652be3b17d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:19 +0000
Subject: [PATCH 17/55] fix: no type identifier exists for geometry collections

---
 src/geoarrow/geoarrow_type_inline.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/geoarrow/geoarrow_type_inline.h b/src/geoarrow/geoarrow_type_inline.h
index da11f69..5aacad1 100644
--- a/src/geoarrow/geoarrow_type_inline.h
+++ b/src/geoarrow/geoarrow_type_inline.h
@@ -234,7 +234,8 @@ static inline enum GeoArrowCoordType GeoArrowCoordTypeFromType(enum GeoArrowType
 static inline enum GeoArrowType GeoArrowMakeType(enum GeoArrowGeometryType geometry_type,
                                                  enum GeoArrowDimensions dimensions,
                                                  enum GeoArrowCoordType coord_type) {
-  if (geometry_type == GEOARROW_GEOMETRY_TYPE_GEOMETRY) {
+  if (geometry_type == GEOARROW_GEOMETRY_TYPE_GEOMETRY ||
+      geometry_type == GEOARROW_GEOMETRY_TYPE_GEOMETRYCOLLECTION) {
     return GEOARROW_TYPE_UNINITIALIZED;
   } else if (dimensions == GEOARROW_DIMENSIONS_UNKNOWN) {
     return GEOARROW_TYPE_UNINITIALIZED;
-- 
2.43.0


From c75a41f5343ab142e6702f9a575d9003f688f1fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:46 +0000
Subject: [PATCH 18/55] fix: size needed for a coordinate sequence wrapped at
 32 bits

---
 src/geoarrow/geoarrow_type_inline.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/geoarrow/geoarrow_type_inline.h b/src/geoarrow/geoarrow_type_inline.h
index 5aacad1..970bd57 100644
--- a/src/geoarrow/geoarrow_type_inline.h
+++ b/src/geoarrow/geoarrow_type_inline.h
@@ -467,7 +467,7 @@ static inline int64_t GeoArrowGeometryNodeWriteSequence(
     const struct GeoArrowGeometryNode* node, uint8_t* dst, int64_t dst_size) {
   uint32_t n_values = _GeoArrowkNumDimensions[node->dimensions];
   uint32_t n_coords = node->size;
-  int64_t bytes_required = n_values * n_coords * sizeof(double);
+  int64_t bytes_required = (int64_t)n_values * n_coords * sizeof(double);
   if (dst_size < bytes_required) {
     return bytes_required;
   }
-- 
2.43.0


From 3fe78b96e8399112f98e869886fe1f0f663aa1fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:10 +0000
Subject: [PATCH 19/55] fix: byte-swapped geometries got a swapped NaN for
 missing dimensions

---
 src/geoarrow/geoarrow_type_inline.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/geoarrow/geoarrow_type_inline.h b/src/geoarrow/geoarrow_type_inline.h
index 970bd57..716c356 100644
--- a/src/geoarrow/geoarrow_type_inline.h
+++ b/src/geoarrow/geoarrow_type_inline.h
@@ -544,7 +544,8 @@ static inline void GeoArrowGeometryViewCopyCoordsGeneric(
           src_stride_mapped = src_strides[map[i] + 1];
           out_stride = out_strides[i];
 
-          if (node->flags & GEOARROW_GEOMETRY_NODE_FLAG_SWAP_ENDIAN) {
+          // The NaN that stands for a missing dimension is never swapped
+          if (map[i] >= 0 && (node->flags & GEOARROW_GEOMETRY_NODE_FLAG_SWAP_ENDIAN)) {
             uint64_t tmp;
             for (uint32_t j = 0; j < node->size; ++j) {
               memcpy(&tmp, src_mapped, sizeof(double));
-- 
2.43.0


From d821df9beaf395feef6527f8ad576cfdb93ba5a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:01 +0000
Subject: [PATCH 20/55] fix: metadata parsing looped forever on an embedded NUL
 character

---
 src/geoarrow/metadata.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/geoarrow/metadata.c b/src/geoarrow/metadata.c
index c6c3c47..17a37be 100644
--- a/src/geoarrow/metadata.c
+++ b/src/geoarrow/metadata.c
@@ -120,7 +120,9 @@ static GeoArrowErrorCode FindList(struct ArrowStringView* s,
   s->data++;
   struct ArrowStringView tmp_value;
   while (s->size_bytes > 0) {
-    if (SkipUntil(s, "[{\"]")) {
+    if (!SkipUntil(s, "[{\"]")) {
+      return EINVAL;
+    } else {
       char c = *(s->data);
       switch (c) {
         case '\"':
@@ -157,7 +159,9 @@ static GeoArrowErrorCode FindObject(struct ArrowStringView* s,
   s->data++;
   struct ArrowStringView tmp_value;
   while (s->size_bytes > 0) {
-    if (SkipUntil(s, "{[\"}")) {
+    if (!SkipUntil(s, "{[\"}")) {
+      return EINVAL;
+    } else {
       char c = *(s->data);
       switch (c) {
         case '\"':
-- 
2.43.0


From 1624b1009554d438606c8d41b3dfd9ddc1333727 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:18 +0000
Subject: [PATCH 21/55] fix: metadata parsing read past the end of the text

---
 src/geoarrow/metadata.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/geoarrow/metadata.c b/src/geoarrow/metadata.c
index 17a37be..a19696f 100644
--- a/src/geoarrow/metadata.c
+++ b/src/geoarrow/metadata.c
@@ -74,7 +74,7 @@ static GeoArrowErrorCode FindNull(struct ArrowStringView* s,
 static GeoArrowErrorCode FindString(struct ArrowStringView* s,
                                     struct ArrowStringView* out) {
   out->data = s->data;
-  if (s->data[0] != '\"') {
+  if (s->size_bytes == 0 || s->data[0] != '\"') {
     return EINVAL;
   }
 
@@ -200,6 +200,9 @@ static GeoArrowErrorCode ParseJSONMetadata(struct GeoArrowMetadataView* metadata
     SkipWhitespace(s);
     NANOARROW_RETURN_NOT_OK(ParseChar(s, ':'));
     SkipWhitespace(s);
+    if (s->size_bytes == 0) {
+      return EINVAL;
+    }
 
     switch (s->data[0]) {
       case '[':
@@ -278,7 +281,7 @@ static GeoArrowErrorCode ParseJSONMetadata(struct GeoArrowMetadataView* metadata
     }
 
     SkipUntil(s, ",}");
-    if (s->data[0] == ',') {
+    if (s->size_bytes > 0 && s->data[0] == ',') {
       s->size_bytes--;
       s->data++;
     }
-- 
2.43.0


From 4369be40db76bbed84829f2186d54cb94a94e181 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:33 +0000
Subject: [PATCH 22/55] fix: metadata parsing reported any crs_type of the
 right length as that type

---
 src/geoarrow/metadata.c | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/geoarrow/metadata.c b/src/geoarrow/metadata.c
index a19696f..eaa4bf3 100644
--- a/src/geoarrow/metadata.c
+++ b/src/geoarrow/metadata.c
@@ -262,13 +262,14 @@ static GeoArrowErrorCode ParseJSONMetadata(struct GeoArrowMetadataView* metadata
       }
     } else if (k.size_bytes == 10 && strncmp(k.data, "\"crs_type\"", 10) == 0) {
       if (v.data[0] == '\"') {
-        if (v.size_bytes == 10 && strncmp(k.data, "\"projjson\"", 10)) {
+        if (v.size_bytes == 10 && strncmp(v.data, "\"projjson\"", 10) == 0) {
           metadata_view->crs_type = GEOARROW_CRS_TYPE_PROJJSON;
-        } else if (v.size_bytes == 11 && strncmp(k.data, "\"wkt2:2019\"", 11)) {
+        } else if (v.size_bytes == 11 && strncmp(v.data, "\"wkt2:2019\"", 11) == 0) {
           metadata_view->crs_type = GEOARROW_CRS_TYPE_WKT2_2019;
-        } else if (v.size_bytes == 16 && strncmp(k.data, "\"authority_code\"", 16)) {
+        } else if (v.size_bytes == 16 &&
+                   strncmp(v.data, "\"authority_code\"", 16) == 0) {
           metadata_view->crs_type = GEOARROW_CRS_TYPE_AUTHORITY_CODE;
-        } else if (v.size_bytes == 6 && strncmp(k.data, "\"srid\"", 6)) {
+        } else if (v.size_bytes == 6 && strncmp(v.data, "\"srid\"", 6) == 0) {
           metadata_view->crs_type = GEOARROW_CRS_TYPE_SRID;
         } else {
           // Accept unrecognized string values but ignore them
-- 
2.43.0


From 702cc4f9678b1e481b4cfcdf6971fe6b2c901dc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:48 +0000
Subject: [PATCH 23/55] fix: metadata parsing recursed without bound on nested
 values

---
 src/geoarrow/metadata.c | 29 ++++++++++++++++++++---------
 1 file changed, 20 insertions(+), 9 deletions(-)

diff --git a/src/geoarrow/metadata.c b/src/geoarrow/metadata.c
index eaa4bf3..bcdedfd 100644
--- a/src/geoarrow/metadata.c
+++ b/src/geoarrow/metadata.c
@@ -106,12 +106,19 @@ static GeoArrowErrorCode FindString(struct ArrowStringView* s,
   return EINVAL;
 }
 
+// Nested lists and objects are skipped recursively
+#define METADATA_MAX_NESTING 512
+
 static GeoArrowErrorCode FindObject(struct ArrowStringView* s,
-                                    struct ArrowStringView* out);
+                                    struct ArrowStringView* out, int depth);
 
 static GeoArrowErrorCode FindList(struct ArrowStringView* s,
-                                  struct ArrowStringView* out) {
+                                  struct ArrowStringView* out, int depth) {
   out->data = s->data;
+  if (depth > METADATA_MAX_NESTING) {
+    return EINVAL;
+  }
+
   if (s->data[0] != '[') {
     return EINVAL;
   }
@@ -129,10 +136,10 @@ static GeoArrowErrorCode FindList(struct ArrowStringView* s,
           NANOARROW_RETURN_NOT_OK(FindString(s, &tmp_value));
           break;
         case '[':
-          NANOARROW_RETURN_NOT_OK(FindList(s, &tmp_value));
+          NANOARROW_RETURN_NOT_OK(FindList(s, &tmp_value, depth + 1));
           break;
         case '{':
-          NANOARROW_RETURN_NOT_OK(FindObject(s, &tmp_value));
+          NANOARROW_RETURN_NOT_OK(FindObject(s, &tmp_value, depth + 1));
           break;
         case ']':
           s->size_bytes--;
@@ -149,8 +156,12 @@ static GeoArrowErrorCode FindList(struct ArrowStringView* s,
 }
 
 static GeoArrowErrorCode FindObject(struct ArrowStringView* s,
-                                    struct ArrowStringView* out) {
+                                    struct ArrowStringView* out, int depth) {
   out->data = s->data;
+  if (depth > METADATA_MAX_NESTING) {
+    return EINVAL;
+  }
+
   if (s->data[0] != '{') {
     return EINVAL;
   }
@@ -168,10 +179,10 @@ static GeoArrowErrorCode FindObject(struct ArrowStringView* s,
           NANOARROW_RETURN_NOT_OK(FindString(s, &tmp_value));
           break;
         case '[':
-          NANOARROW_RETURN_NOT_OK(FindList(s, &tmp_value));
+          NANOARROW_RETURN_NOT_OK(FindList(s, &tmp_value, depth + 1));
           break;
         case '{':
-          NANOARROW_RETURN_NOT_OK(FindObject(s, &tmp_value));
+          NANOARROW_RETURN_NOT_OK(FindObject(s, &tmp_value, depth + 1));
           break;
         case '}':
           s->size_bytes--;
@@ -206,10 +217,10 @@ static GeoArrowErrorCode ParseJSONMetadata(struct GeoArrowMetadataView* metadata
 
     switch (s->data[0]) {
       case '[':
-        NANOARROW_RETURN_NOT_OK(FindList(s, &v));
+        NANOARROW_RETURN_NOT_OK(FindList(s, &v, 0));
         break;
       case '{':
-        NANOARROW_RETURN_NOT_OK(FindObject(s, &v));
+        NANOARROW_RETURN_NOT_OK(FindObject(s, &v, 0));
         break;
       case '\"':
         NANOARROW_RETURN_NOT_OK(FindString(s, &v));
-- 
2.43.0


From e51b19f1620a2e344e4a7b88b000dfc5a9844392 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:02 +0000
Subject: [PATCH 24/55] fix: backslashes of a CRS were counted but not escaped
 when serialising metadata

---
 src/geoarrow/metadata.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/geoarrow/metadata.c b/src/geoarrow/metadata.c
index bcdedfd..b0c4231 100644
--- a/src/geoarrow/metadata.c
+++ b/src/geoarrow/metadata.c
@@ -468,7 +468,7 @@ static int64_t GeoArrowMetadataSerializeInternal(
       *out++ = '"';
       for (int64_t i = 0; i < metadata_view->crs.size_bytes; i++) {
         char val = metadata_view->crs.data[i];
-        if (val == '"') {
+        if (val == '"' || val == '\\') {
           *out++ = '\\';
         }
 
-- 
2.43.0


From 7e7c092444b265c115f8da2ec929129697dd3091 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:31 +0000
Subject: [PATCH 25/55] fix: extension names that merely start with
 geoarrow.wkb are not WKB

---
 src/geoarrow/schema_view.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/geoarrow/schema_view.c b/src/geoarrow/schema_view.c
index 85c1a64..b4757f1 100644
--- a/src/geoarrow/schema_view.c
+++ b/src/geoarrow/schema_view.c
@@ -312,7 +312,7 @@ static GeoArrowErrorCode GeoArrowSchemaViewInitInternal(
     schema_view->geometry_type = GeoArrowGeometryTypeFromType(schema_view->type);
     schema_view->dimensions = GeoArrowDimensionsFromType(schema_view->type);
     schema_view->coord_type = GeoArrowCoordTypeFromType(schema_view->type);
-  } else if (ext_len >= 12 && strncmp(ext_name, "geoarrow.wkb", 12) == 0) {
+  } else if (ext_len == 12 && strncmp(ext_name, "geoarrow.wkb", 12) == 0) {
     switch (na_schema_view->type) {
       case NANOARROW_TYPE_BINARY:
         schema_view->type = GEOARROW_TYPE_WKB;
-- 
2.43.0


From 211b640a8c9271068e44426dc722e61fa5dfb631 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:57 +0000
Subject: [PATCH 26/55] fix: arrays without the buffers of the declared type
 are refused

---
 src/geoarrow/array_view.c | 27 +++++++++++++++++++++++++--
 1 file changed, 25 insertions(+), 2 deletions(-)

diff --git a/src/geoarrow/array_view.c b/src/geoarrow/array_view.c
index 96afd83..618fa58 100644
--- a/src/geoarrow/array_view.c
+++ b/src/geoarrow/array_view.c
@@ -170,6 +170,13 @@ static int GeoArrowArrayViewSetArrayInternal(struct GeoArrowArrayView* array_vie
         return EINVAL;
     }
 
+    if (array->n_buffers != 1) {
+      GeoArrowErrorSet(error,
+                       "Unexpected number of buffers for coordinate array "
+                       "in GeoArrowArrayViewSetArray()");
+      return EINVAL;
+    }
+
     return GEOARROW_OK;
   }
 
@@ -204,7 +211,15 @@ static int GeoArrowArrayViewSetArrayInternal(struct GeoArrowArrayView* array_vie
 }
 
 static GeoArrowErrorCode GeoArrowArrayViewSetArraySerialized(
-    struct GeoArrowArrayView* array_view, const struct ArrowArray* array) {
+    struct GeoArrowArrayView* array_view, const struct ArrowArray* array,
+    struct GeoArrowError* error) {
+  if (array->n_buffers != 3 || array->n_children != 0) {
+    GeoArrowErrorSet(error,
+                     "Unexpected number of buffers or children for serialized array "
+                     "in GeoArrowArrayViewSetArray()");
+    return EINVAL;
+  }
+
   array_view->length[0] = array->length;
   array_view->offset[0] = array->offset;
 
@@ -241,6 +256,13 @@ static GeoArrowErrorCode GeoArrowArrayViewSetArrayBox(
         ((const double*)array->children[i]->buffers[1]) + array->children[i]->offset;
   }
 
+  if (array->n_buffers != 1) {
+    GeoArrowErrorSet(error,
+                     "Unexpected number of buffers for box array struct "
+                     "in GeoArrowArrayViewSetArray()");
+    return EINVAL;
+  }
+
   return GEOARROW_OK;
 }
 
@@ -250,7 +272,8 @@ GeoArrowErrorCode GeoArrowArrayViewSetArray(struct GeoArrowArrayView* array_view
   switch (array_view->schema_view.type) {
     case GEOARROW_TYPE_WKT:
     case GEOARROW_TYPE_WKB:
-      NANOARROW_RETURN_NOT_OK(GeoArrowArrayViewSetArraySerialized(array_view, array));
+      NANOARROW_RETURN_NOT_OK(
+          GeoArrowArrayViewSetArraySerialized(array_view, array, error));
       break;
     case GEOARROW_TYPE_BOX:
     case GEOARROW_TYPE_BOX_Z:
-- 
2.43.0


From a9020e2296b30d04cc4ed658b537d25ffe5cb510 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:25 +0000
Subject: [PATCH 27/55] fix: the array reader counts the buffers of large and
 view arrays before reading them

---
 src/geoarrow/array_reader.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/geoarrow/array_reader.c b/src/geoarrow/array_reader.c
index 896b5ac..b737862 100644
--- a/src/geoarrow/array_reader.c
+++ b/src/geoarrow/array_reader.c
@@ -225,6 +225,12 @@ GeoArrowErrorCode GeoArrowArrayReaderSetArray(struct GeoArrowArrayReader* reader
     case GEOARROW_TYPE_WKT_VIEW:
     case GEOARROW_TYPE_LARGE_WKB:
     case GEOARROW_TYPE_WKB_VIEW:
+      // ArrowArrayViewSetArray() reads the buffers before counting them
+      if (array->n_buffers < 3) {
+        GeoArrowErrorSet(error, "Expected array with at least 3 buffers");
+        return EINVAL;
+      }
+
       GEOARROW_RETURN_NOT_OK(ArrowArrayViewSetArray(&private_data->src.arrow, array,
                                                     (struct ArrowError*)error));
       break;
-- 
2.43.0


From 0b252645e7120999c9f0ac7cdadbd52efe1d624e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:41 +0000
Subject: [PATCH 28/55] fix: coordinates after the end of a linestring bled
 into the next feature of the native writer

---
 src/geoarrow/native_writer.c | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/geoarrow/native_writer.c b/src/geoarrow/native_writer.c
index 1b93f5a..be16bcd 100644
--- a/src/geoarrow/native_writer.c
+++ b/src/geoarrow/native_writer.c
@@ -670,6 +670,16 @@ static int feat_end_multipoint(struct GeoArrowVisitor* v) {
   } else if (private_data->size[0] != 1) {
     GeoArrowErrorSet(v->error, "Can't convert feature with >1 sequence to LINESTRING");
     return EINVAL;
+  } else {
+    // Coordinates visited after the end of the sequence (e.g., those of a POINT that
+    // follows a LINESTRING in a collection) would become part of the next feature
+    struct GeoArrowWritableBufferView* offsets = private_data->builder.view.buffers + 1;
+    int64_t n_offsets = offsets->size_bytes / sizeof(int32_t);
+    if (offsets->data.as_int32[n_offsets - 1] !=
+        private_data->builder.view.coords.size_coords) {
+      GeoArrowErrorSet(v->error, "Can't convert feature with >1 sequence to LINESTRING");
+      return EINVAL;
+    }
   }
 
   if (private_data->feat_is_null) {
-- 
2.43.0


From 2cf9fb2dead2b1f8fd0561d1f10708e130650b74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:56 +0000
Subject: [PATCH 29/55] fix: the native writer merged several polygons into one
 POLYGON

---
 src/geoarrow/native_writer.c | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/geoarrow/native_writer.c b/src/geoarrow/native_writer.c
index be16bcd..88696b2 100644
--- a/src/geoarrow/native_writer.c
+++ b/src/geoarrow/native_writer.c
@@ -722,6 +722,8 @@ static int feat_start_multilinestring(struct GeoArrowVisitor* v) {
   private_data->level = 0;
   private_data->size[0] = 0;
   private_data->size[1] = 0;
+  // The number of polygons
+  private_data->size[2] = 0;
   private_data->feat_is_null = 0;
   return GEOARROW_OK;
 }
@@ -739,6 +741,15 @@ static int geom_start_multilinestring(struct GeoArrowVisitor* v,
     case GEOARROW_GEOMETRY_TYPE_MULTIPOINT:
       private_data->level++;
       break;
+    case GEOARROW_GEOMETRY_TYPE_POLYGON:
+      private_data->size[2]++;
+      if (private_data->size[2] > 1 &&
+          private_data->builder.view.schema_view.geometry_type ==
+              GEOARROW_GEOMETRY_TYPE_POLYGON) {
+        GeoArrowErrorSet(v->error, "Can't convert feature with >1 polygon to POLYGON");
+        return EINVAL;
+      }
+      break;
     default:
       break;
   }
-- 
2.43.0


From 4759ad63c7d7a0b42fbe1d6d0d8ddef8236b8824 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:29:43 +0000
Subject: [PATCH 30/55] fix: do not leak the array writer of a type that is not
 supported

---
 src/geoarrow/array_writer.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/geoarrow/array_writer.c b/src/geoarrow/array_writer.c
index 864937d..b5bf59a 100644
--- a/src/geoarrow/array_writer.c
+++ b/src/geoarrow/array_writer.c
@@ -30,7 +30,8 @@ GeoArrowErrorCode GeoArrowArrayWriterInitFromType(struct GeoArrowArrayWriter* wr
     case GEOARROW_TYPE_LARGE_WKB:
     case GEOARROW_TYPE_WKT_VIEW:
     case GEOARROW_TYPE_WKB_VIEW:
-      return ENOTSUP;
+      result = ENOTSUP;
+      break;
     case GEOARROW_TYPE_WKT:
       result = GeoArrowWKTWriterInit(&private_data->wkt_writer);
       break;
-- 
2.43.0


From b97af9c2dc6e5e6d1dbf52208b2daf5bc131a036 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:06:03 +0000
Subject: [PATCH 31/55] fix: release a partly built schema when its
 initialisation fails

---
 src/geoarrow/schema.c | 20 +++++++++++++++++---
 1 file changed, 17 insertions(+), 3 deletions(-)

diff --git a/src/geoarrow/schema.c b/src/geoarrow/schema.c
index 935537f..3677def 100644
--- a/src/geoarrow/schema.c
+++ b/src/geoarrow/schema.c
@@ -109,9 +109,8 @@ static GeoArrowErrorCode GeoArrowSchemaInitListOf(struct ArrowSchema* schema,
 #define CHILD_NAMES_MULTIPOLYGON \
   (const char*[]) { "polygons", "rings", "vertices" }
 
-GeoArrowErrorCode GeoArrowSchemaInit(struct ArrowSchema* schema, enum GeoArrowType type) {
-  schema->release = NULL;
-
+static GeoArrowErrorCode GeoArrowSchemaInitInternal(struct ArrowSchema* schema,
+                                                    enum GeoArrowType type) {
   switch (type) {
     case GEOARROW_TYPE_WKB:
       return ArrowSchemaInitFromType(schema, NANOARROW_TYPE_BINARY);
@@ -205,6 +204,17 @@ GeoArrowErrorCode GeoArrowSchemaInit(struct ArrowSchema* schema, enum GeoArrowTy
   return NANOARROW_OK;
 }
 
+GeoArrowErrorCode GeoArrowSchemaInit(struct ArrowSchema* schema, enum GeoArrowType type) {
+  schema->release = NULL;
+
+  int result = GeoArrowSchemaInitInternal(schema, type);
+  if (result != GEOARROW_OK && schema->release != NULL) {
+    schema->release(schema);
+  }
+
+  return result;
+}
+
 GeoArrowErrorCode GeoArrowSchemaInitExtension(struct ArrowSchema* schema,
                                               enum GeoArrowType type) {
   const char* ext_type = GeoArrowExtensionNameFromType(type);
@@ -236,5 +246,9 @@ GeoArrowErrorCode GeoArrowSchemaInitExtension(struct ArrowSchema* schema,
 
   result = ArrowSchemaSetMetadata(schema, (const char*)metadata.data);
   ArrowBufferReset(&metadata);
+  if (result != NANOARROW_OK) {
+    schema->release(schema);
+  }
+
   return result;
 }
-- 
2.43.0


From 68af00a1339536db0119b01f0a34392f25058196 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:06:17 +0000
Subject: [PATCH 32/55] fix: check the buffer table allocation in
 ArrowArrayInitFromType()

---
 src/vendor/nanoarrow/nanoarrow.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/vendor/nanoarrow/nanoarrow.c b/src/vendor/nanoarrow/nanoarrow.c
index da621c9..11a8388 100644
--- a/src/vendor/nanoarrow/nanoarrow.c
+++ b/src/vendor/nanoarrow/nanoarrow.c
@@ -2458,6 +2458,12 @@ ArrowErrorCode ArrowArrayInitFromType(struct ArrowArray* array,
   ArrowBufferInit(&private_data->buffers[1]);
   private_data->buffer_data =
       (const void**)ArrowMalloc(sizeof(void*) * NANOARROW_MAX_FIXED_BUFFERS);
+  if (private_data->buffer_data == NULL) {
+    ArrowFree(private_data);
+    array->release = NULL;
+    return ENOMEM;
+  }
+
   for (int i = 0; i < NANOARROW_MAX_FIXED_BUFFERS; ++i) {
     private_data->buffer_data[i] = NULL;
   }
-- 
2.43.0


From b2145c94130819373c5bd9484673609e1c66ca25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:06:30 +0000
Subject: [PATCH 33/55] fix: reset the array view when
 ArrowArrayInitFromSchema() fails

---
 src/vendor/nanoarrow/nanoarrow.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/vendor/nanoarrow/nanoarrow.c b/src/vendor/nanoarrow/nanoarrow.c
index 11a8388..9cddbbd 100644
--- a/src/vendor/nanoarrow/nanoarrow.c
+++ b/src/vendor/nanoarrow/nanoarrow.c
@@ -2557,7 +2557,12 @@ ArrowErrorCode ArrowArrayInitFromSchema(struct ArrowArray* array,
                                         struct ArrowError* error) {
   struct ArrowArrayView array_view;
   NANOARROW_RETURN_NOT_OK(ArrowArrayViewInitFromSchema(&array_view, schema, error));
-  NANOARROW_RETURN_NOT_OK(ArrowArrayInitFromArrayView(array, &array_view, error));
+  int result = ArrowArrayInitFromArrayView(array, &array_view, error);
+  if (result != NANOARROW_OK) {
+    ArrowArrayViewReset(&array_view);
+    return result;
+  }
+
   if (array_view.storage_type == NANOARROW_TYPE_DENSE_UNION ||
       array_view.storage_type == NANOARROW_TYPE_SPARSE_UNION) {
     struct ArrowArrayPrivateData* private_data =
-- 
2.43.0


From 4d91ba22d4e3f61682e752290d378278fdba7248 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:06:43 +0000
Subject: [PATCH 34/55] fix: release already allocated children when allocating
 another fails

---
 src/vendor/nanoarrow/nanoarrow.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/vendor/nanoarrow/nanoarrow.c b/src/vendor/nanoarrow/nanoarrow.c
index 9cddbbd..86ac5d9 100644
--- a/src/vendor/nanoarrow/nanoarrow.c
+++ b/src/vendor/nanoarrow/nanoarrow.c
@@ -2595,6 +2595,9 @@ ArrowErrorCode ArrowArrayAllocateChildren(struct ArrowArray* array, int64_t n_ch
 
   memset(array->children, 0, n_children * sizeof(struct ArrowArray*));
 
+  // Set here such that children that were allocated are released on failure below
+  array->n_children = n_children;
+
   for (int64_t i = 0; i < n_children; i++) {
     array->children[i] = (struct ArrowArray*)ArrowMalloc(sizeof(struct ArrowArray));
     if (array->children[i] == NULL) {
@@ -2603,7 +2606,6 @@ ArrowErrorCode ArrowArrayAllocateChildren(struct ArrowArray* array, int64_t n_ch
     array->children[i]->release = NULL;
   }
 
-  array->n_children = n_children;
   return NANOARROW_OK;
 }
 
-- 
2.43.0


From 95f3234ff1e22d14866817539bab93714d0fee89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:07:26 +0000
Subject: [PATCH 35/55] fix: keep the allocation of a buffer that could not be
 reallocated

---
 src/vendor/nanoarrow/nanoarrow.c | 15 ++++++++-------
 src/vendor/nanoarrow/nanoarrow.h | 22 ++++++++++++----------
 2 files changed, 20 insertions(+), 17 deletions(-)

diff --git a/src/vendor/nanoarrow/nanoarrow.c b/src/vendor/nanoarrow/nanoarrow.c
index 86ac5d9..76241cd 100644
--- a/src/vendor/nanoarrow/nanoarrow.c
+++ b/src/vendor/nanoarrow/nanoarrow.c
@@ -247,8 +247,6 @@ struct ArrowBufferAllocator ArrowBufferAllocatorDefault(void) {
 static uint8_t* ArrowBufferDeallocatorReallocate(struct ArrowBufferAllocator* allocator,
                                                  uint8_t* ptr, int64_t old_size,
                                                  int64_t new_size) {
-  NANOARROW_UNUSED(new_size);
-
   // Attempting to reallocate a buffer with a custom deallocator is
   // a programming error. In debug mode, crash here.
 #if defined(NANOARROW_DEBUG)
@@ -257,11 +255,14 @@ static uint8_t* ArrowBufferDeallocatorReallocate(struct ArrowBufferAllocator* al
                           "ArrowBufferDeallocator()");
 #endif
 
-  // In release mode, ensure the the deallocator is called exactly
-  // once using the pointer it was given and return NULL, which
-  // will trigger the caller to return ENOMEM.
-  allocator->free(allocator, ptr, old_size);
-  *allocator = ArrowBufferAllocatorDefault();
+  // In release mode, return NULL, which will trigger the caller to return ENOMEM.
+  // The buffer then still owns the pointer it was given, such that the deallocator
+  // is called exactly once when the buffer is reset (or here, if nothing is to be kept).
+  if (new_size == 0) {
+    allocator->free(allocator, ptr, old_size);
+    *allocator = ArrowBufferAllocatorDefault();
+  }
+
   return NULL;
 }
 
diff --git a/src/vendor/nanoarrow/nanoarrow.h b/src/vendor/nanoarrow/nanoarrow.h
index 61cf62f..fa0a588 100644
--- a/src/vendor/nanoarrow/nanoarrow.h
+++ b/src/vendor/nanoarrow/nanoarrow.h
@@ -2535,15 +2535,16 @@ static inline ArrowErrorCode ArrowBufferResize(struct ArrowBuffer* buffer,
                            (shrink_to_fit && new_size_bytes < buffer->capacity_bytes);
 
   if (needs_reallocation) {
-    buffer->data = buffer->allocator.reallocate(&buffer->allocator, buffer->data,
-                                                buffer->capacity_bytes, new_size_bytes);
+    uint8_t* new_data = buffer->allocator.reallocate(
+        &buffer->allocator, buffer->data, buffer->capacity_bytes, new_size_bytes);
 
-    if (buffer->data == NULL && new_size_bytes > 0) {
-      buffer->capacity_bytes = 0;
-      buffer->size_bytes = 0;
+    // The original allocation is still valid (and still owned by the buffer) if
+    // it could not be reallocated
+    if (new_data == NULL && new_size_bytes > 0) {
       return ENOMEM;
     }
 
+    buffer->data = new_data;
     buffer->capacity_bytes = new_size_bytes;
   }
 
@@ -2560,15 +2561,16 @@ static inline ArrowErrorCode ArrowBufferReserve(struct ArrowBuffer* buffer,
 
   int64_t new_capacity_bytes =
       _ArrowGrowByFactor(buffer->capacity_bytes, min_capacity_bytes);
-  buffer->data = buffer->allocator.reallocate(&buffer->allocator, buffer->data,
-                                              buffer->capacity_bytes, new_capacity_bytes);
+  uint8_t* new_data = buffer->allocator.reallocate(
+      &buffer->allocator, buffer->data, buffer->capacity_bytes, new_capacity_bytes);
 
-  if (buffer->data == NULL && new_capacity_bytes > 0) {
-    buffer->capacity_bytes = 0;
-    buffer->size_bytes = 0;
+  // The original allocation is still valid (and still owned by the buffer) if
+  // it could not be reallocated
+  if (new_data == NULL && new_capacity_bytes > 0) {
     return ENOMEM;
   }
 
+  buffer->data = new_data;
   buffer->capacity_bytes = new_capacity_bytes;
   return NANOARROW_OK;
 }
-- 
2.43.0


From c21726304b56600e2b30dc335cd21d6b7d071268 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:07:40 +0000
Subject: [PATCH 36/55] fix: release the array when finishing a WKB or WKT
 writer fails

---
 src/geoarrow/wkb_writer.c | 8 +++++++-
 src/geoarrow/wkt_writer.c | 8 +++++++-
 2 files changed, 14 insertions(+), 2 deletions(-)

diff --git a/src/geoarrow/wkb_writer.c b/src/geoarrow/wkb_writer.c
index 27396cc..c2fa84e 100644
--- a/src/geoarrow/wkb_writer.c
+++ b/src/geoarrow/wkb_writer.c
@@ -239,7 +239,13 @@ GeoArrowErrorCode GeoArrowWKBWriterFinish(struct GeoArrowWKBWriter* writer,
   private->length = 0;
   private->null_count = 0;
   private->level = 0;
-  return ArrowArrayFinishBuildingDefault(array, (struct ArrowError*)error);
+
+  int result = ArrowArrayFinishBuildingDefault(array, (struct ArrowError*)error);
+  if (result != GEOARROW_OK) {
+    array->release(array);
+  }
+
+  return result;
 }
 
 void GeoArrowWKBWriterReset(struct GeoArrowWKBWriter* writer) {
diff --git a/src/geoarrow/wkt_writer.c b/src/geoarrow/wkt_writer.c
index d4c5cdf..ddb40a6 100644
--- a/src/geoarrow/wkt_writer.c
+++ b/src/geoarrow/wkt_writer.c
@@ -345,7 +345,13 @@ GeoArrowErrorCode GeoArrowWKTWriterFinish(struct GeoArrowWKTWriter* writer,
   array->null_count = private->null_count;
   private->length = 0;
   private->null_count = 0;
-  return ArrowArrayFinishBuildingDefault(array, (struct ArrowError*)error);
+
+  int result = ArrowArrayFinishBuildingDefault(array, (struct ArrowError*)error);
+  if (result != GEOARROW_OK) {
+    array->release(array);
+  }
+
+  return result;
 }
 
 void GeoArrowWKTWriterReset(struct GeoArrowWKTWriter* writer) {
-- 
2.43.0


From 0dfe2429015333225bdce2f32e52757aa4b5d4c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:07:53 +0000
Subject: [PATCH 37/55] fix: report a failure to finish a box array

---
 src/geoarrow/kernel.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/geoarrow/kernel.c b/src/geoarrow/kernel.c
index ad8d96b..8a42984 100644
--- a/src/geoarrow/kernel.c
+++ b/src/geoarrow/kernel.c
@@ -520,6 +520,8 @@ static ArrowErrorCode box_finish(struct GeoArrowVisitorKernelPrivate* private_da
     if (tmp.release != NULL) {
       tmp.release(&tmp);
     }
+
+    return result;
   }
 
   int64_t length = private_data->box2d_private.values[0].size_bytes / sizeof(double);
-- 
2.43.0


From 0faf44f60533656aa7dc6d9b88da9510307511b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:08:06 +0000
Subject: [PATCH 38/55] fix: release everything a builder holds when its
 initialisation fails

---
 src/geoarrow/builder.c | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/geoarrow/builder.c b/src/geoarrow/builder.c
index 86e548b..632ba6b 100644
--- a/src/geoarrow/builder.c
+++ b/src/geoarrow/builder.c
@@ -104,9 +104,7 @@ static GeoArrowErrorCode GeoArrowBuilderInitInternal(struct GeoArrowBuilder* bui
   // Initialize an empty array; cache the ArrowBitmap and ArrowBuffer pointers we need
   result = GeoArrowBuilderInitArrayAndCachePointers(builder);
   if (result != GEOARROW_OK) {
-    private->schema.release(&private->schema);
-    ArrowFree(private);
-    builder->private_data = NULL;
+    GeoArrowBuilderReset(builder);
     return result;
   }
 
-- 
2.43.0


From 466606e426163b0ef33797d9191920652010763e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:08:58 +0000
Subject: [PATCH 39/55] fix: keep the coordinate pointers current when a
 reservation fails halfway

---
 src/geoarrow/geoarrow_type_inline.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/geoarrow/geoarrow_type_inline.h b/src/geoarrow/geoarrow_type_inline.h
index 716c356..05425b8 100644
--- a/src/geoarrow/geoarrow_type_inline.h
+++ b/src/geoarrow/geoarrow_type_inline.h
@@ -747,15 +747,15 @@ static inline GeoArrowErrorCode GeoArrowBuilderCoordsReserve(
         if (result != GEOARROW_OK) {
           return result;
         }
+
+        // Even if a subsequent reservation fails, this buffer may have moved
+        writable_view->values[i - (last_buffer - n_values + 1)] =
+            builder->view.buffers[i].data.as_double;
       }
 
       // Sync the capacity and pointers back to the writable view
       writable_view->capacity_coords =
           builder->view.buffers[last_buffer].capacity_bytes / sizeof(double);
-      for (int i = 0; i < n_values; i++) {
-        writable_view->values[i] =
-            builder->view.buffers[last_buffer - n_values + 1 + i].data.as_double;
-      }
 
       return GEOARROW_OK;
     default:
-- 
2.43.0


From fd2ddda1d302c26c6222dcb386bed81d9652edd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:09:11 +0000
Subject: [PATCH 40/55] fix: mark released scalar functions as released

---
 src/geoarrow/scalar_udf.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/geoarrow/scalar_udf.c b/src/geoarrow/scalar_udf.c
index b25952d..e35d453 100644
--- a/src/geoarrow/scalar_udf.c
+++ b/src/geoarrow/scalar_udf.c
@@ -7,7 +7,7 @@ static void GeoArrowScalarUdfVoidFactoryInit(struct GeoArrowScalarUdfFactory* se
                                              struct GeoArrowScalarUdf* out);
 
 static void GeoArrowScalarUdfVoidFactoryRelease(struct GeoArrowScalarUdfFactory* self) {
-  GEOARROW_UNUSED(self);
+  self->release = NULL;
 }
 
 GeoArrowErrorCode GeoArrowScalarUdfFactoryInit(struct GeoArrowScalarUdfFactory* out,
@@ -66,7 +66,7 @@ static const char* GeoArrowScalarUdfVoidGetLastError(struct GeoArrowScalarUdf* s
 }
 
 static void GeoArrowScalarUdfVoidRelease(struct GeoArrowScalarUdf* self) {
-  GEOARROW_UNUSED(self);
+  self->release = NULL;
 }
 
 static void GeoArrowScalarUdfVoidFactoryInit(struct GeoArrowScalarUdfFactory* self,
-- 
2.43.0


From 6476c0fad7801df8efccd38dc978b8672fe2dbde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:09:59 +0000
Subject: [PATCH 41/55] fix: do not truncate the size of a buffer view in
 WKBParser

---
 src/geoarrow/hpp/wkb_util.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/geoarrow/hpp/wkb_util.hpp b/src/geoarrow/hpp/wkb_util.hpp
index b82c057..d4d9e38 100644
--- a/src/geoarrow/hpp/wkb_util.hpp
+++ b/src/geoarrow/hpp/wkb_util.hpp
@@ -286,7 +286,7 @@ class WKBParser {
   /// cursor
   Status Parse(struct GeoArrowBufferView data, WKBGeometry* out,
                const uint8_t** cursor = nullptr) {
-    return Parse(data.data, static_cast<uint32_t>(data.size_bytes), out, cursor);
+    return Parse(data.data, static_cast<size_t>(data.size_bytes), out, cursor);
   }
 
   /// \brief Parse the specified bytes into out, placing the end of the sequence in
-- 
2.43.0


From db197fd304af80b7205aabf1c9ce58cf56489720 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:10:49 +0000
Subject: [PATCH 42/55] fix: bound the nesting accepted by WKBParser

---
 src/geoarrow/hpp/wkb_util.hpp | 21 ++++++++++++++++-----
 1 file changed, 16 insertions(+), 5 deletions(-)

diff --git a/src/geoarrow/hpp/wkb_util.hpp b/src/geoarrow/hpp/wkb_util.hpp
index d4d9e38..b0e292e 100644
--- a/src/geoarrow/hpp/wkb_util.hpp
+++ b/src/geoarrow/hpp/wkb_util.hpp
@@ -277,9 +277,14 @@ class WKBParser {
     INVALID_ENDIAN,
     /// \brief An unexpected geometry type value was encountered (e.g., corrupted data or
     /// curved/complex geometry)
-    INVALID_GEOMETRY_TYPE
+    INVALID_GEOMETRY_TYPE,
+    /// \brief Collections are nested more deeply than the parser supports
+    NESTED_TOO_DEEPLY
   };
 
+  /// \brief The maximum number of collections that may enclose a geometry
+  static constexpr uint32_t kMaxNesting = 255;
+
   WKBParser() = default;
 
   /// \brief Parse a GeoArrowBufferView into out, placing the end of the sequence in
@@ -323,6 +328,8 @@ class WKBParser {
         return "INVALID_ENDIAN";
       case INVALID_GEOMETRY_TYPE:
         return "INVALID_GEOMETRY_TYPE";
+      case NESTED_TOO_DEEPLY:
+        return "NESTED_TOO_DEEPLY";
       default:
         return "UNKNOWN";
     }
@@ -343,7 +350,7 @@ class WKBParser {
   static constexpr uint32_t kEWKBSrid = 0x20000000;
   static constexpr uint32_t kEWKBMask = 0x00FFFFFF;
 
-  Status ParseGeometry(WKBGeometry* out) {
+  Status ParseGeometry(WKBGeometry* out, uint32_t level = 0) {
     out->Reset();
 
     Status status = CheckRemaining(sizeof(uint8_t) + sizeof(uint32_t));
@@ -411,7 +418,7 @@ class WKBParser {
       case GEOARROW_GEOMETRY_TYPE_MULTIPOLYGON:
       case GEOARROW_GEOMETRY_TYPE_GEOMETRYCOLLECTION:
         out->geometry_type = static_cast<enum GeoArrowGeometryType>(geometry_type);
-        return ParseCollection(out);
+        return ParseCollection(out, level);
       default:
         return INVALID_GEOMETRY_TYPE;
     }
@@ -464,7 +471,11 @@ class WKBParser {
     return OK;
   }
 
-  Status ParseCollection(WKBGeometry* out) {
+  Status ParseCollection(WKBGeometry* out, uint32_t level) {
+    if (level >= kMaxNesting) {
+      return NESTED_TOO_DEEPLY;
+    }
+
     Status status = CheckRemaining(sizeof(uint32_t));
     if (status != OK) {
       return status;
@@ -472,7 +483,7 @@ class WKBParser {
 
     uint32_t size = ReadUInt32Unchecked();
     for (uint32_t i = 0; i < size; ++i) {
-      status = ParseGeometry(out->AppendGeometry());
+      status = ParseGeometry(out->AppendGeometry(), level + 1);
       if (status != OK) {
         return status;
       }
-- 
2.43.0


From b3e2c9f707db94af4a4465c2686ed59f773e9d48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:11:40 +0000
Subject: [PATCH 43/55] fix: initialise every bound of empty XYZ and XYM boxes

---
 src/geoarrow/hpp/array_util.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/geoarrow/hpp/array_util.hpp b/src/geoarrow/hpp/array_util.hpp
index c45c151..008ef1c 100644
--- a/src/geoarrow/hpp/array_util.hpp
+++ b/src/geoarrow/hpp/array_util.hpp
@@ -433,7 +433,8 @@ struct BoxXYZ : public std::array<T, 6> {
   bound_type lower_bound() const { return {xmin(), ymin(), zmin()}; }
   bound_type upper_bound() const { return {xmax(), ymax(), zmax()}; }
   static BoxXYZ Empty() {
-    return {std::numeric_limits<T>::infinity(), std::numeric_limits<T>::infinity(),
+    return {std::numeric_limits<T>::infinity(),  std::numeric_limits<T>::infinity(),
+            std::numeric_limits<T>::infinity(),  -std::numeric_limits<T>::infinity(),
             -std::numeric_limits<T>::infinity(), -std::numeric_limits<T>::infinity()};
   }
 };
@@ -453,7 +454,8 @@ struct BoxXYM : public std::array<T, 6> {
   bound_type lower_bound() const { return {xmin(), ymin(), mmin()}; }
   bound_type upper_bound() const { return {xmax(), ymax(), mmax()}; }
   static BoxXYM Empty() {
-    return {std::numeric_limits<T>::infinity(), std::numeric_limits<T>::infinity(),
+    return {std::numeric_limits<T>::infinity(),  std::numeric_limits<T>::infinity(),
+            std::numeric_limits<T>::infinity(),  -std::numeric_limits<T>::infinity(),
             -std::numeric_limits<T>::infinity(), -std::numeric_limits<T>::infinity()};
   }
 };
-- 
2.43.0


From 321607cfaac7965bb36f4a27bc83f05917dd92fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:12:33 +0000
Subject: [PATCH 44/55] fix: apply the stride in StridedIterator::operator[]

---
 src/geoarrow/hpp/array_util.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/geoarrow/hpp/array_util.hpp b/src/geoarrow/hpp/array_util.hpp
index 008ef1c..e8bbcde 100644
--- a/src/geoarrow/hpp/array_util.hpp
+++ b/src/geoarrow/hpp/array_util.hpp
@@ -161,7 +161,7 @@ class StridedIterator {
   bool operator!=(const StridedIterator& other) const { return ptr_ != other.ptr_; }
 
   T operator*() const { return *ptr_; }
-  T operator[](ptrdiff_t i) const { return ptr_[i]; }
+  T operator[](ptrdiff_t i) const { return ptr_[i * stride_]; }
 
   using iterator_category = std::random_access_iterator_tag;
   using difference_type = int64_t;
-- 
2.43.0


From 83272a38f8c97ecc164169c2bb837cf9dbac702a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:13:21 +0000
Subject: [PATCH 45/55] fix: load the value in UnalignedStridedIterator's
 post-increment

---
 src/geoarrow/hpp/array_util.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/geoarrow/hpp/array_util.hpp b/src/geoarrow/hpp/array_util.hpp
index e8bbcde..d72788a 100644
--- a/src/geoarrow/hpp/array_util.hpp
+++ b/src/geoarrow/hpp/array_util.hpp
@@ -202,7 +202,7 @@ class UnalignedStridedIterator {
     return *this;
   }
   T operator++(int) {
-    T retval = *ptr_;
+    T retval = load_(ptr_);
     ptr_ += stride_;
     return retval;
   }
-- 
2.43.0


From b8b13e149eb0d637142a180a0747c409eff262e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:14:09 +0000
Subject: [PATCH 46/55] fix: convert coordinates in VisitEdges() of coordinate
 sequences and point arrays

---
 src/geoarrow/hpp/array_util.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/geoarrow/hpp/array_util.hpp b/src/geoarrow/hpp/array_util.hpp
index d72788a..d683b98 100644
--- a/src/geoarrow/hpp/array_util.hpp
+++ b/src/geoarrow/hpp/array_util.hpp
@@ -640,7 +640,7 @@ struct CoordSequence {
     CoordDst start = CoordCast<Coord, CoordDst>(*it);
     ++it;
     while (it != end()) {
-      CoordDst end = *it;
+      CoordDst end = CoordCast<Coord, CoordDst>(*it);
       func(start, end);
       start = end;
       ++it;
@@ -1111,7 +1111,7 @@ struct PointArray : public Array<CoordSequence<Coord>> {
   /// For the purposes of this function, points are considered degenerate edges.
   template <typename CoordDst, typename Func>
   void VisitEdges(Func&& func) const {
-    this->template VisitVertices<CoordDst>([&](Coord coord) { func(coord, coord); });
+    this->template VisitVertices<CoordDst>([&](CoordDst coord) { func(coord, coord); });
   }
 };
 
@@ -1233,7 +1233,7 @@ struct MultipointArray : public Array<ListSequence<CoordSequence<Coord>>> {
   /// For the purposes of this function, points are considered degenerate edges.
   template <typename CoordDst, typename Func>
   void VisitEdges(Func&& func) const {
-    this->template VisitVertices<CoordDst>([&](Coord coord) { func(coord, coord); });
+    this->template VisitVertices<CoordDst>([&](CoordDst coord) { func(coord, coord); });
   }
 };
 
-- 
2.43.0


From 19289262418a299784a248093c302a8f4cf17671 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:15:04 +0000
Subject: [PATCH 47/55] fix: initialise UnalignedCoordSequence from const views
 and keep its loader when slicing

---
 src/geoarrow/hpp/array_util.hpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/geoarrow/hpp/array_util.hpp b/src/geoarrow/hpp/array_util.hpp
index d683b98..a699cbd 100644
--- a/src/geoarrow/hpp/array_util.hpp
+++ b/src/geoarrow/hpp/array_util.hpp
@@ -705,8 +705,9 @@ struct UnalignedCoordSequence {
   }
 
   /// \brief Initialize from a GeoArrowCoordView
-  GeoArrowErrorCode InitFrom(struct GeoArrowCoordView* view) {
-    if (view->n_values < coord_size || !std::is_same<ordinate_type, double>::value) {
+  GeoArrowErrorCode InitFrom(const struct GeoArrowCoordView* view) {
+    if (static_cast<uint32_t>(view->n_values) < coord_size ||
+        !std::is_same<ordinate_type, double>::value) {
       return EINVAL;
     }
 
@@ -782,8 +783,8 @@ struct UnalignedCoordSequence {
   ///
   /// Caller is responsible for ensuring that offset + length is within the bounds
   /// of this function.
-  UnalignedCoordSequence<Coord> Slice(int64_t offset, int64_t length) const {
-    UnalignedCoordSequence<Coord> out = *this;
+  UnalignedCoordSequence Slice(int64_t offset, int64_t length) const {
+    UnalignedCoordSequence out = *this;
     out.offset += offset;
     out.length = length;
     return out;
-- 
2.43.0


From 231ee1e6d46a2a72676a7fa4c7de8d395af52f83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:15:50 +0000
Subject: [PATCH 48/55] fix: set flat multipoints in
 ArrayWriter::SetFlatMultipoint()

---
 src/geoarrow/hpp/array_writer.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/geoarrow/hpp/array_writer.hpp b/src/geoarrow/hpp/array_writer.hpp
index 12ef329..337125c 100644
--- a/src/geoarrow/hpp/array_writer.hpp
+++ b/src/geoarrow/hpp/array_writer.hpp
@@ -105,8 +105,8 @@ class ArrayWriter {
   }
 
   void SetFlatMultipoint(bool flat_multipoint) {
-    GEOARROW_THROW_NOT_OK(nullptr,
-                          GeoArrowArrayWriterSetPrecision(&writer_, flat_multipoint));
+    GEOARROW_THROW_NOT_OK(
+        nullptr, GeoArrowArrayWriterSetFlatMultipoint(&writer_, flat_multipoint));
   }
 
   struct GeoArrowVisitor* visitor() {
-- 
2.43.0


From a304d85bfed9e664f318a8207b18fc916a8c316d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:16:37 +0000
Subject: [PATCH 49/55] fix: pass the builder's address in
 ArrayBuilder::SetBufferWrapped()

---
 src/geoarrow/hpp/array_writer.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/geoarrow/hpp/array_writer.hpp b/src/geoarrow/hpp/array_writer.hpp
index 337125c..d8c96eb 100644
--- a/src/geoarrow/hpp/array_writer.hpp
+++ b/src/geoarrow/hpp/array_writer.hpp
@@ -36,7 +36,7 @@ class ArrayBuilder {
   void SetBufferWrapped(int64_t i, T obj, GeoArrowBufferView value) {
     T* obj_moved = new T(std::move(obj));
     GeoArrowErrorCode result = GeoArrowBuilderSetOwnedBuffer(
-        builder_, i, value, &internal::FreeWrappedBuffer<T>, obj_moved);
+        &builder_, i, value, &internal::FreeWrappedBuffer<T>, obj_moved);
     if (result != GEOARROW_OK) {
       delete obj_moved;
       throw ::geoarrow::ErrnoException(result, "GeoArrowBuilderSetOwnedBuffer()",
-- 
2.43.0


From 5b1f2e042d64d662ccae8eb56d3a8eb8e5e9d8cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:21:23 +0000
Subject: [PATCH 50/55] fix: release the previous array in
 ArrayReader::SetArray()

---
 src/geoarrow/hpp/array_reader.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/geoarrow/hpp/array_reader.hpp b/src/geoarrow/hpp/array_reader.hpp
index 3f812b0..09b016f 100644
--- a/src/geoarrow/hpp/array_reader.hpp
+++ b/src/geoarrow/hpp/array_reader.hpp
@@ -46,6 +46,10 @@ class ArrayReader {
   }
 
   void SetArray(struct ArrowArray* array) {
+    if (array_.array.release != nullptr) {
+      array_.array.release(&array_.array);
+    }
+
     std::memcpy(&array_.array, array, sizeof(struct ArrowArray));
     array->release = nullptr;
     SetArrayNonOwning(&array_.array);
-- 
2.43.0


From dfc959b1b8ed5ab532ce21d5b5066abda5b2c3be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:48:13 +0000
Subject: [PATCH 51/55] fix: don't write the result of GeoArrowFromChars() when
 it fails

---
 src/geoarrow/double_parse_fast_float.cc | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/geoarrow/double_parse_fast_float.cc b/src/geoarrow/double_parse_fast_float.cc
index 7bd5453..14dd068 100644
--- a/src/geoarrow/double_parse_fast_float.cc
+++ b/src/geoarrow/double_parse_fast_float.cc
@@ -7,15 +7,17 @@
 
 extern "C" GeoArrowErrorCode GeoArrowFromChars(const char* first, const char* last,
                                                double* out) {
+  double result;
 #ifdef GEOARROW_NAMESPACE
-  auto answer = GEOARROW_NAMESPACE::fast_float::from_chars(first, last, *out);
+  auto answer = GEOARROW_NAMESPACE::fast_float::from_chars(first, last, result);
 #else
-  auto answer = fast_float::from_chars(first, last, *out);
+  auto answer = fast_float::from_chars(first, last, result);
 #endif
 
   if (answer.ec != std::errc() || answer.ptr != last) {
     return EINVAL;
   } else {
+    *out = result;
     return GEOARROW_OK;
   }
 }
-- 
2.43.0


From 084eefbcf5e478ecc6e4d56c70cc448a6589ac61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:48:52 +0000
Subject: [PATCH 52/55] fix: don't modify the output of
 GeoArrowMetadataViewInit() when it fails

---
 src/geoarrow/metadata.c | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/src/geoarrow/metadata.c b/src/geoarrow/metadata.c
index b0c4231..c9577d6 100644
--- a/src/geoarrow/metadata.c
+++ b/src/geoarrow/metadata.c
@@ -345,17 +345,20 @@ static GeoArrowErrorCode GeoArrowMetadataViewInitJSON(
 GeoArrowErrorCode GeoArrowMetadataViewInit(struct GeoArrowMetadataView* metadata_view,
                                            struct GeoArrowStringView metadata,
                                            struct GeoArrowError* error) {
-  metadata_view->metadata = metadata;
-  metadata_view->edge_type = GEOARROW_EDGE_TYPE_PLANAR;
-  metadata_view->crs_type = GEOARROW_CRS_TYPE_NONE;
-  metadata_view->crs.data = NULL;
-  metadata_view->crs.size_bytes = 0;
+  // Populate a temporary so that metadata_view is not modified on error
+  struct GeoArrowMetadataView tmp;
+  tmp.metadata = metadata;
+  tmp.edge_type = GEOARROW_EDGE_TYPE_PLANAR;
+  tmp.crs_type = GEOARROW_CRS_TYPE_NONE;
+  tmp.crs.data = NULL;
+  tmp.crs.size_bytes = 0;
 
-  if (metadata.size_bytes == 0) {
-    return GEOARROW_OK;
+  if (metadata.size_bytes != 0) {
+    NANOARROW_RETURN_NOT_OK(GeoArrowMetadataViewInitJSON(&tmp, error));
   }
 
-  return GeoArrowMetadataViewInitJSON(metadata_view, error);
+  *metadata_view = tmp;
+  return GEOARROW_OK;
 }
 
 static int GeoArrowMetadataCrsNeedsEscape(struct GeoArrowStringView crs) {
-- 
2.43.0


From 4c85ed0fa841e89e94207f433ed41bce1818e3a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:49:32 +0000
Subject: [PATCH 53/55] fix: don't modify the output of
 GeoArrowSchemaViewInit*() when it fails

---
 src/geoarrow/schema_view.c | 27 ++++++++++++++++++++-------
 1 file changed, 20 insertions(+), 7 deletions(-)

diff --git a/src/geoarrow/schema_view.c b/src/geoarrow/schema_view.c
index b4757f1..d6d05c1 100644
--- a/src/geoarrow/schema_view.c
+++ b/src/geoarrow/schema_view.c
@@ -361,7 +361,13 @@ GeoArrowErrorCode GeoArrowSchemaViewInit(struct GeoArrowSchemaView* schema_view,
     return EINVAL;
   }
 
-  return GeoArrowSchemaViewInitInternal(schema_view, schema, &na_schema_view, na_error);
+  // Populate a temporary so that schema_view is not modified on error
+  struct GeoArrowSchemaView tmp;
+  tmp.schema = (struct ArrowSchema*)schema;
+  NANOARROW_RETURN_NOT_OK(
+      GeoArrowSchemaViewInitInternal(&tmp, schema, &na_schema_view, na_error));
+  *schema_view = tmp;
+  return GEOARROW_OK;
 }
 
 GeoArrowErrorCode GeoArrowSchemaViewInitFromStorage(
@@ -372,11 +378,23 @@ GeoArrowErrorCode GeoArrowSchemaViewInitFromStorage(
   NANOARROW_RETURN_NOT_OK(ArrowSchemaViewInit(&na_schema_view, schema, na_error));
   na_schema_view.extension_name.data = extension_name.data;
   na_schema_view.extension_name.size_bytes = extension_name.size_bytes;
-  return GeoArrowSchemaViewInitInternal(schema_view, schema, &na_schema_view, na_error);
+
+  // Populate a temporary so that schema_view is not modified on error
+  struct GeoArrowSchemaView tmp;
+  tmp.schema = (struct ArrowSchema*)schema;
+  NANOARROW_RETURN_NOT_OK(
+      GeoArrowSchemaViewInitInternal(&tmp, schema, &na_schema_view, na_error));
+  *schema_view = tmp;
+  return GEOARROW_OK;
 }
 
 GeoArrowErrorCode GeoArrowSchemaViewInitFromType(struct GeoArrowSchemaView* schema_view,
                                                  enum GeoArrowType type) {
+  const char* extension_name = GeoArrowExtensionNameFromType(type);
+  if (type != GEOARROW_TYPE_UNINITIALIZED && extension_name == NULL) {
+    return EINVAL;
+  }
+
   schema_view->schema = NULL;
   schema_view->extension_name.data = NULL;
   schema_view->extension_name.size_bytes = 0;
@@ -391,11 +409,6 @@ GeoArrowErrorCode GeoArrowSchemaViewInitFromType(struct GeoArrowSchemaView* sche
     return GEOARROW_OK;
   }
 
-  const char* extension_name = GeoArrowExtensionNameFromType(type);
-  if (extension_name == NULL) {
-    return EINVAL;
-  }
-
   schema_view->extension_name.data = extension_name;
   schema_view->extension_name.size_bytes = strlen(extension_name);
 
-- 
2.43.0


From fe465d1ac19757662a2be83fd42dfc88491e377a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:49:56 +0000
Subject: [PATCH 54/55] fix: report an error message for an unsupported
 as_geoarrow output type

---
 src/geoarrow/kernel.c | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/geoarrow/kernel.c b/src/geoarrow/kernel.c
index 8a42984..6e3efbc 100644
--- a/src/geoarrow/kernel.c
+++ b/src/geoarrow/kernel.c
@@ -321,15 +321,19 @@ static int finish_start_as_geoarrow(struct GeoArrowVisitorKernelPrivate* private
     return EINVAL;
   }
 
-  NANOARROW_RETURN_NOT_OK(
-      GeoArrowArrayWriterInitFromType(&private_data->writer, out_type));
+  int result = GeoArrowArrayWriterInitFromType(&private_data->writer, out_type);
+  if (result != GEOARROW_OK) {
+    GeoArrowErrorSet(error, "Can't create writer for type with id %ld", out_type_long);
+    return result;
+  }
+
   NANOARROW_RETURN_NOT_OK(
       GeoArrowArrayWriterInitVisitor(&private_data->writer, &private_data->v));
 
   struct ArrowSchema tmp;
   NANOARROW_RETURN_NOT_OK(GeoArrowSchemaInitExtension(&tmp, out_type));
 
-  int result = GeoArrowSchemaSetMetadataFrom(&tmp, schema);
+  result = GeoArrowSchemaSetMetadataFrom(&tmp, schema);
   if (result != GEOARROW_OK) {
     GeoArrowErrorSet(error, "GeoArrowSchemaSetMetadataFrom() failed");
     tmp.release(&tmp);
-- 
2.43.0


From 06e0b7d6e2d32804ed72b7dcfe48d175c39e63be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:55:27 +0000
Subject: [PATCH 55/55] fix: report an error message from
 GeoArrowBuilderInitFromSchema()

---
 src/geoarrow/builder.c | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/geoarrow/builder.c b/src/geoarrow/builder.c
index 632ba6b..6d95629 100644
--- a/src/geoarrow/builder.c
+++ b/src/geoarrow/builder.c
@@ -125,7 +125,14 @@ GeoArrowErrorCode GeoArrowBuilderInitFromSchema(struct GeoArrowBuilder* builder,
   memset(builder, 0, sizeof(struct GeoArrowBuilder));
   NANOARROW_RETURN_NOT_OK(
       GeoArrowSchemaViewInit(&builder->view.schema_view, schema, error));
-  return GeoArrowBuilderInitInternal(builder);
+
+  int result = GeoArrowBuilderInitInternal(builder);
+  if (result != GEOARROW_OK) {
+    GeoArrowErrorSet(error, "Failed to initialize builder for type with id %d",
+                     (int)builder->view.schema_view.type);
+  }
+
+  return result;
 }
 
 GeoArrowErrorCode GeoArrowBuilderReserveBuffer(struct GeoArrowBuilder* builder, int64_t i,
-- 
2.43.0

