// K visitor callbacks in any order on a writer: each is accepted or refused, memory stays intact,
// the writer finishes or refuses, and releases without leaks.
//   W: 0 WKB, 1 WKT, 2 native builder of type T, 3 geometry value
#include "ev.h"
#ifndef K
#define K 4
#endif
#ifndef W
#define W 0
#endif
#ifndef T
#define T 1
#endif
static double xy[8] = {1, 2, 3, 4, 5, 6, 7, 8};
static int step(struct GeoArrowVisitor* v) {
  int op = sx_choose(0, 7, "op");
  switch (op) {
    case 0: return v->feat_start(v);
    case 1: return v->null_feat(v);
    case 2: {
#ifdef DIMALL
      uint8_t t = sx_u8("type"), d = sx_u8("dim");
      sx_assume(t <= 7 && d <= 4);
      return v->geom_start(v, (enum GeoArrowGeometryType)t, (enum GeoArrowDimensions)d);
#else
      uint8_t t = sx_u8("type");
      sx_assume(t <= 7);
      return v->geom_start(v, (enum GeoArrowGeometryType)t, GEOARROW_DIMENSIONS_XY);
#endif
    }
    case 3: return v->ring_start(v);
    case 4: {
      struct GeoArrowCoordView cv;
      memset(&cv, 0, sizeof(cv));
      cv.n_coords = sx_choose(0, 2, "n");
#ifdef DIMALL
      cv.n_values = sx_choose(2, 4, "nv");
#else
      cv.n_values = 2;
#endif
      cv.coords_stride = cv.n_values;
      for (int j = 0; j < cv.n_values; j++) cv.values[j] = xy + j;
      return v->coords(v, &cv);
    }
    case 5: return v->ring_end(v);
    case 6: return v->geom_end(v);
    default: return v->feat_end(v);
  }
}
static struct evlist got;
int sx_main(void) {
  int live0 = sx_live_allocs();
  struct GeoArrowError err;
  err.message[0] = 0;
  struct GeoArrowVisitor v;
  GeoArrowVisitorInitVoid(&v);
  v.error = &err;
#if W == 0
  struct GeoArrowWKBWriter w;
  if (GeoArrowWKBWriterInit(&w)) return 1;
  GeoArrowWKBWriterInitVisitor(&w, &v);
#elif W == 1
  struct GeoArrowWKTWriter w;
  if (GeoArrowWKTWriterInit(&w)) return 1;
#ifdef MAXEL
  w.max_element_size_bytes = MAXEL;
#endif
  GeoArrowWKTWriterInitVisitor(&w, &v);
#elif W == 2
  struct GeoArrowNativeWriter w;
  if (GeoArrowNativeWriterInit(&w, (enum GeoArrowType)T)) return 1;
  if (GeoArrowNativeWriterInitVisitor(&w, &v)) return 1;
#else
  struct GeoArrowGeometry w;
  if (GeoArrowGeometryInit(&w)) return 1;
  GeoArrowGeometryInitVisitor(&w, &v);
#endif
  v.error = &err;
#ifdef FS
  v.feat_start(&v);
#endif
#ifdef NEST
  for (int i = 0; i < NEST; i++) (void)v.geom_start(&v, GEOARROW_GEOMETRY_TYPE_GEOMETRYCOLLECTION, GEOARROW_DIMENSIONS_XY);
#endif
  int refused = 0;
  for (int i = 0; i < K; i++) refused |= step(&v) != 0;
  if (refused) sx_cover("refused"); else sx_cover("accepted");
#ifdef BATCH2
#define BATCHES 2
#else
#define BATCHES 1
#define BATCH2 0
#endif
#if W == 3
  struct GeoArrowVisitor rec;
  ev_visitor(&got, &rec, &err);
  (void)GeoArrowGeometryVisit(&w, &rec);
  struct GeoArrowGeometry c;
  if (GeoArrowGeometryInit(&c)) return 1;
  (void)GeoArrowGeometryDeepCopy(GeoArrowGeometryAsView(&w), &c);
  GeoArrowGeometryReset(&c);
  GeoArrowGeometryReset(&w);
#else
  for (int b = 0; b < BATCHES; b++) {
  struct ArrowArray a;
  a.release = NULL;
  // the writer stays usable for another batch
  if (b > 0) for (int i = 0; i < BATCH2 + 0; i++) (void)step(&v);
#if W == 0
  int rc = GeoArrowWKBWriterFinish(&w, &a, &err);
#elif W == 1
  int rc = GeoArrowWKTWriterFinish(&w, &a, &err);
#else
  int rc = GeoArrowNativeWriterFinish(&w, &a, &err);
#endif
  if (rc == 0) sx_cover("finished");
  if (a.release) a.release(&a);
  }
#if W == 0
  GeoArrowWKBWriterReset(&w);
#elif W == 1
  GeoArrowWKTWriterReset(&w);
#else
  GeoArrowNativeWriterReset(&w);
#endif
#endif
  SX_ASSERT(sx_live_allocs() <= live0, "no leak");
  return 0;
}
