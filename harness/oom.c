// Allocation number k fails (k: solver choice) in a scenario; afterwards what the API documents as cleanup is done:
// no memory error, no leak, and unless the failure was reported the results are right.
// OP 0 schemas, 1 builder, 2 native writer, 3 WKB / WKT writer, 4 geometries, 5 readers, 6 array writer, 7 kernels, 8 scalar function.
#include "canon.h"
#include "types.h"
#include "wktref.h"
#ifndef OP
#define OP 0
#endif
#ifndef FAILS
#define FAILS 1
#endif
#ifndef T
#define T 2
#endif
static struct GeoArrowError err;
static int fired(void) { return !sx_fail_alloc_pending(); }
#define TRY(call) do { if ((call) != 0) { rc = 1; goto done; } } while (0)
// a fixed feature of the type with parts and dimensions
static struct evlist feats, got, one, cref, cgot;
static int serial;
static int next_ord(double* d, int i) {
  (void)i;
  static const double tv[] = {1, 30.5, -2, 0, 0.125, 99.75, 1024, 7, -0.5};
  *d = tv[serial++ % 9];
  return 0;
}
static void fixed_geom(struct evlist* l, int gt, int dim, int parts) {
  ev_gs(l, (uint32_t)gt, (uint32_t)dim);
  for (int i = 0; i < (gt == 1 ? 1 : parts); i++) {
    if (gt >= 4 && gt < 7) fixed_geom(l, gt - 3, dim, parts);
    else if (gt == 7) fixed_geom(l, 1 + i % 6, dim, parts);
    else {
      if (gt == 3) ev_add(l, EV_RS);
      for (int k = 0; k < (gt == 3 ? parts : 1); k++) {
        double d[4];
        uint64_t v[4];
        for (int j = 0; j < 4; j++) next_ord(&d[j], j);
        memcpy(v, d, 32);
        ev_c(l, (uint32_t)gen_nd(dim), v);
      }
      if (gt == 3) ev_add(l, EV_RE);
    }
  }
  ev_add(l, EV_GE);
}
static void fixed_feats(int gt, int dim, int parts) {  // one feature, a null, another one
  feats.n = feats.overflow = 0;
  serial = 0;
  for (int k = 0; k < 3; k++) {
    ev_add(&feats, EV_FS);
    if (k == 1) ev_add(&feats, EV_NULL); else fixed_geom(&feats, gt, dim, k ? 1 : parts);
    ev_add(&feats, EV_FE);
  }
}
static const char* elem(const struct ArrowArray* a, int64_t k, int* n) {
  const int32_t* off = (const int32_t*)a->buffers[1];
  *n = off[a->offset + k + 1] - off[a->offset + k];
  return (const char*)a->buffers[2] + off[a->offset + k];
}
// the array holds the features (only checked when nothing was reported)
static void check_array(const struct ArrowArray* a, int t) {
  SX_ASSERT(a->length == 3, "one element per feature");
  int gt = t % 1000, dim = t % 10000 / 1000 + 1;
  if (t < 100000) SX_ASSERT(aref_valid(a, gt, t / 10000 + 1, dim, 1), "valid array");
  for (int k = 0; k < 3; k++) {
    ev_feature(&feats, k, &one);
    got.n = got.overflow = 0;
    SX_ASSERT(aref_null(a, k) == ev_has(&one, EV_NULL), "null exactly where the feature was null");
    if (aref_null(a, k)) continue;
    if (t < 100000) {
      aref_feature(a, gt, dim, t / 10000 + 1, k, &got);
      canon(&one, gt, dim, 1, &cref);
      canon(&got, gt, dim, 1, &cgot);
      ev_assert_same(&cref, &cgot, "feature");
      continue;
    }
    int n, nv = 0;
    const char* s = elem(a, k, &n);
    if (t == 100003) SX_ASSERT(wktref_read(s, n, &got, &nv) == 1, "valid text");
    else {
      struct wkbref r = {(const uint8_t*)s, (uint32_t)n, 0, 0, 0};
      ev_add(&got, EV_FS);
      wkbref_geom(&r, &got, 0);
      SX_ASSERT(!r.bad && r.pos == r.n, "valid WKB");
      ev_add(&got, EV_FE);
    }
    ev_assert_same(&one, &got, "feature");
  }
}
#if OP == 0
static const char* const meta[] = {"{}", "{\"crs\":\"OGC:CRS84\",\"crs_type\":\"authority_code\",\"edges\":\"spherical\"}", "{\"crs\":{\"a\":\"b\"}}"};
static int scenario(void) {
  int rc = 0, t = tdesc_of(sx_choose(0, NTYPES - 1, "type")).id, how = sx_choose(0, 3, "how"), m = sx_choose(0, 2, "metadata");
  struct ArrowSchema s, s2;
  struct GeoArrowMetadataView mv;
  struct GeoArrowStringView sv = {meta[m], (int64_t)strlen(meta[m])};
  s.release = s2.release = NULL;
  sx_fail_allocs(FAILS);
  TRY(GeoArrowMetadataViewInit(&mv, sv, &err));
  if (how == 0) {
    TRY(GeoArrowSchemaInit(&s, (enum GeoArrowType)t));
  } else {
    TRY(GeoArrowSchemaInitExtension(&s, (enum GeoArrowType)t));
    if (how >= 2) TRY(GeoArrowSchemaSetMetadata(&s, &mv));
    if (how == 3) {
      TRY(GeoArrowSchemaInitExtension(&s2, (enum GeoArrowType)t));
      TRY(GeoArrowSchemaSetMetadataFrom(&s2, &s));
    }
    struct GeoArrowSchemaView view;
    TRY(GeoArrowSchemaViewInit(&view, &s, &err));
    SX_ASSERT((int)view.type == t, "type");
    if (how == 3) {
      TRY(GeoArrowSchemaViewInit(&view, &s2, &err));
      SX_ASSERT((int)view.type == t, "type");
    }
    if (how >= 2) {
      struct GeoArrowMetadataView mw;
      TRY(GeoArrowMetadataViewInit(&mw, view.extension_metadata, &err));
      SX_ASSERT(mw.crs_type == mv.crs_type && mw.edge_type == mv.edge_type && mw.crs.size_bytes == mv.crs.size_bytes, "metadata");
    }
  }
done:
  if (s.release) s.release(&s);
  if (s2.release) s2.release(&s2);
  return rc;
}
#elif OP == 1
static int nfreed;
static void myfree(uint8_t* p, int64_t size, void* pd) { (void)size; (void)pd; nfreed++; free(p); }
static int scenario(void) {
  int rc = 0, how = sx_choose(0, 3, "how");
  struct GeoArrowBuilder b;
  struct ArrowArray a;
  struct ArrowSchema s;
  a.release = NULL;
  s.release = NULL;
  uint8_t *own = NULL, *p = NULL;
  struct tdesc t = {0, 0, 0, 0};
  if (how == 3) t = tdesc_of(sx_choose(0, NTYPES - 3, "type"));  // initialisation: every type
  else for (int k = 0; k < NTYPES; k++) if (tdesc_of(k).id == (T)) t = tdesc_of(k);
  if (how == 2) own = (uint8_t*)malloc(16);
  int fromschema = sx_choose(0, 1, "from schema");
  if (fromschema) SX_ASSERT(GeoArrowSchemaInitExtension(&s, (enum GeoArrowType)t.id) == 0, "harness: schema");
  sx_fail_allocs(FAILS);
  rc = fromschema ? GeoArrowBuilderInitFromSchema(&b, &s, &err) : GeoArrowBuilderInitFromType(&b, (enum GeoArrowType)t.id);
  if (rc) {
    SX_ASSERT(b.private_data == NULL, "nothing to reset after a failed initialisation");
    if (s.release) s.release(&s);
    free(own);
    return rc;
  }
  if (how == 3) goto done;
  int depth = aref_depth(t.gt), nd = t_nd(t.dim), n = 1;
  struct GeoArrowCoordView cv;
  double ord[40];
  for (int i = 0; i < 40; i++) ord[i] = i + 0.5;
  memset(&cv, 0, sizeof cv);
  cv.n_coords = 10;
  cv.n_values = nd;
  cv.coords_stride = nd;
  for (int j = 0; j < nd; j++) cv.values[j] = ord + j;
  if (how == 2 && t.gt == 1) {
    struct GeoArrowBufferView v;
    memset(own, 7, 16);
    v.data = own;
    v.size_bytes = 16;
    TRY(GeoArrowBuilderSetOwnedBuffer(&b, 1, v, &myfree, NULL));
    p = own;
    own = NULL;
    nfreed = 0;
    goto finish;
  }
  for (int l = 0; l < depth; l++) {
    int32_t o[2] = {0, l == depth - 1 ? 10 : 1};
    TRY(GeoArrowBuilderOffsetAppend(&b, l, o, 2));
  }
  if (how == 0) {
    // in three pieces; a piece that failed is tried once more
    for (int i = 0; i < 3; i++) {
      int64_t off = i == 0 ? 0 : i == 1 ? 1 : 8, cnt = i == 0 ? 1 : i == 1 ? 7 : 2;
      if (GeoArrowBuilderCoordsAppend(&b, &cv, (enum GeoArrowDimensions)t.dim, off, cnt)) {
        SX_ASSERT(fired(), "only the allocation failure is reported");
        sx_cover("again");
        sx_fail_allocs(0);
        rc = GeoArrowBuilderCoordsAppend(&b, &cv, (enum GeoArrowDimensions)t.dim, off, cnt);
        SX_ASSERT(rc == 0, "works once memory is there");
      }
    }
  } else {
    // a reservation that fails leaves what is there usable
    TRY(GeoArrowBuilderCoordsAppend(&b, &cv, (enum GeoArrowDimensions)t.dim, 0, 5));
    int64_t room = b.view.coords.capacity_coords - b.view.coords.size_coords;
    if (GeoArrowBuilderCoordsReserve(&b, 40)) { SX_ASSERT(fired(), "only the allocation failure is reported"); sx_cover("reserve failed"); }
    SX_ASSERT(b.view.coords.capacity_coords - b.view.coords.size_coords >= room, "room is kept");
    for (int i = 5; i < 10; i++) TRY(GeoArrowBuilderCoordsAppend(&b, &cv, (enum GeoArrowDimensions)t.dim, i, 1));
  }
  n = depth ? 1 : 10;
finish:
  TRY(GeoArrowBuilderFinish(&b, &a, &err));
  SX_ASSERT(a.length == n, "length");
  if (how < 2) {
    struct ArrowArray* c = &a;
    for (int l = 0; l < depth; l++) c = c->children[0];
    for (int i = 0; i < 10; i++)
      for (int j = 0; j < nd; j++) {
        double d;
        memcpy(&d, (const char*)c->children[t.coord == 1 ? j : 0]->buffers[1] + 8 * (t.coord == 1 ? i : i * nd + j), 8);
        SX_ASSERT(d == ord[i * nd + j], "coordinates");
      }
  }
done:
  if (a.release) a.release(&a);
  if (s.release) s.release(&s);
  GeoArrowBuilderReset(&b);
  if (p) SX_ASSERT(nfreed == 1, "the owned buffer is released once");
  free(own);
  return rc;
}
#elif OP == 2 || OP == 3 || OP == 6
static int scenario(void) {
  int rc = 0, t = (T), gt = t < 100000 ? t % 1000 : sx_choose(1, 7, "geometry"), dim = t < 100000 ? t % 10000 / 1000 + 1 : 1;
  struct GeoArrowVisitor v;
  struct ArrowArray a;
  a.release = NULL;
  GeoArrowVisitorInitVoid(&v);
  fixed_feats(gt, dim, 3);
#if OP == 2
  struct GeoArrowNativeWriter w;
#define FIN GeoArrowNativeWriterFinish(&w, &a, &err)
#define RESET GeoArrowNativeWriterReset(&w)
#elif OP == 3 && T == 100001
  struct GeoArrowWKBWriter w;
#define FIN GeoArrowWKBWriterFinish(&w, &a, &err)
#define RESET GeoArrowWKBWriterReset(&w)
#elif OP == 3
  struct GeoArrowWKTWriter w;
#define FIN GeoArrowWKTWriterFinish(&w, &a, &err)
#define RESET GeoArrowWKTWriterReset(&w)
#else
  struct GeoArrowArrayWriter w;
  struct ArrowSchema s;
  s.release = NULL;
#define FIN GeoArrowArrayWriterFinish(&w, &a, &err)
#define RESET GeoArrowArrayWriterReset(&w)
#endif
  w.private_data = NULL;
  int anyway = sx_choose(0, 1, "finish anyway");
  sx_fail_allocs(FAILS);
#if OP == 2
  rc = GeoArrowNativeWriterInit(&w, (enum GeoArrowType)t);
  if (rc == 0) {
    rc = GeoArrowNativeWriterInitVisitor(&w, &v);
    if (rc) { RESET; return rc; }
  }
#elif OP == 3 && T == 100001
  rc = GeoArrowWKBWriterInit(&w);
  if (rc == 0) GeoArrowWKBWriterInitVisitor(&w, &v);
#elif OP == 3
  rc = GeoArrowWKTWriterInit(&w);
  if (rc == 0) GeoArrowWKTWriterInitVisitor(&w, &v);
#else
  if (sx_choose(0, 1, "from schema")) {
    rc = GeoArrowSchemaInitExtension(&s, (enum GeoArrowType)t);
    if (rc == 0) rc = GeoArrowArrayWriterInitFromSchema(&w, &s);
    if (s.release) s.release(&s);
  } else rc = GeoArrowArrayWriterInitFromType(&w, (enum GeoArrowType)t);
  if (rc == 0) {
    rc = GeoArrowArrayWriterInitVisitor(&w, &v);
    if (rc) { RESET; return rc; }
  }
#endif
  if (rc) return rc;
  v.error = &err;
  for (int batch = 0; batch < 2; batch++) {
    rc = ev_play(&feats, &v, 0);
    if (rc && !anyway) break;
    int rc2 = FIN;
    if (rc2 == 0 && rc == 0) check_array(&a, t);
    if (rc2 == 0) a.release(&a);
    a.release = NULL;
    if (rc == 0) rc = rc2;
    if (rc) break;
  }
  RESET;
  return rc;
}
#elif OP == 4
static int scenario(void) {
  int rc = 0, gt = sx_choose(1, 7, "geometry"), how = sx_choose(0, 3, "how"), n = sx_choose(1, 4, "parts");
  struct GeoArrowGeometry g, h;
  struct GeoArrowVisitor v, rec;
  g.private_data = h.private_data = NULL;
  GeoArrowVisitorInitVoid(&v);
  fixed_feats(gt, 2, n);
  ev_feature(&feats, 0, &one);
  sx_fail_allocs(FAILS);
  if (GeoArrowGeometryInit(&g)) return 1;
  if (GeoArrowGeometryInit(&h)) { GeoArrowGeometryReset(&g); return 1; }
  GeoArrowGeometryInitVisitor(&g, &v);
  v.error = &err;
  rc = ev_play(&one, &v, 0);
  if (rc && how == 3) {  // another one after the failure
    SX_ASSERT(fired(), "only the allocation failure is reported");
    sx_fail_allocs(0);
    v.error = &err;
    rc = ev_play(&one, &v, 0);
    SX_ASSERT(rc == 0, "works once memory is there");
    sx_cover("again");
  }
  if (rc) goto done;
  if (how == 0) TRY(GeoArrowGeometryDeepCopy(GeoArrowGeometryAsView(&g), &h));
  else if (how == 1) TRY(GeoArrowGeometryShallowCopy(GeoArrowGeometryAsView(&g), &h));
  else if (how == 2) {
    struct GeoArrowGeometryNode* node;
    TRY(GeoArrowGeometryResizeNodes(&h, 3));
    TRY(GeoArrowGeometryAppendNode(&h, &node));
    TRY(GeoArrowGeometryResizeNodes(&h, 20));
    TRY(GeoArrowGeometryAppendNode(&h, &node));
    SX_ASSERT(h.size_nodes == 21, "nodes");
  }
  ev_visitor(&got, &rec, &err);
  TRY(GeoArrowGeometryVisit(how < 2 ? &h : &g, &rec));
  ev_assert_same(&one, &got, "geometry");
done:
  GeoArrowGeometryReset(&g);
  GeoArrowGeometryReset(&h);
  return rc;
}
#elif OP == 5
static int scenario(void) {
  int rc = 0, how = sx_choose(0, 3, "how");
  struct GeoArrowVisitor rec;
  static const char* const wkt[] = {"POINT (1 2)", "GEOMETRYCOLLECTION (POINT (1 2), POLYGON ((1 2, 3 4)))", "MULTIPOLYGON (((1 2)), ((1 2), EMPTY))"};
  const char* s = wkt[sx_choose(0, 2, "text")];
  int nv = 0, n = (int)strlen(s);
  wktref_read(s, n, &one, &nv);
  ev_visitor(&got, &rec, &err);
  struct tdesc t = tdesc_of(sx_choose(0, NTYPES - 1, "type"));
  if (how != 3 && t.id != 1) return 0;
  sx_fail_allocs(FAILS);
  if (how == 0) {
    struct GeoArrowWKTReader r;
    struct GeoArrowStringView sv = {s, n};
    if (GeoArrowWKTReaderInit(&r)) return 1;
    rc = GeoArrowWKTReaderVisit(&r, sv, &rec);
    if (rc == 0) ev_assert_same(&one, &got, "text");
    GeoArrowWKTReaderReset(&r);
  } else if (how < 3) {
    uint8_t wkb[200];
    int m = 0;
    for (int i = 0; i < 12; i++) {  // nested collections, then a point
      const uint8_t h[9] = {1, 7, 0, 0, 0, 1, 0, 0, 0};
      memcpy(wkb + m, h, 9);
      m += 9;
    }
    const uint8_t pt[21] = {1, 1, 0, 0, 0};
    memcpy(wkb + m, pt, 21);
    m += 21;
    struct GeoArrowWKBReader r;
    struct GeoArrowBufferView bv = {wkb, m};
    struct GeoArrowGeometryView gv;
    if (GeoArrowWKBReaderInit(&r)) return 1;
    for (int i = 0; i < 2; i++) {
      if (i && rc) sx_fail_allocs(0);
      if (how == 1) {
        got.n = 0;
        rc = GeoArrowWKBReaderVisit(&r, bv, &rec);
        if (rc == 0) SX_ASSERT(got.n == 2 + 2 * 13 + 1, "events");
      } else {
        rc = GeoArrowWKBReaderRead(&r, bv, &gv, &err);
        if (rc == 0) SX_ASSERT(gv.size_nodes == 13, "nodes");
      }
    }
    GeoArrowWKBReaderReset(&r);
    // the second reading is undisturbed by a failure in the first
    if (rc) SX_ASSERT(0, "works once memory is there");
    rc = fired();
  } else {
    struct GeoArrowArrayReader r;
    struct ArrowSchema sc;
    sc.release = NULL;
    int fs = sx_choose(0, 1, "from schema");
    if (fs) TRY(GeoArrowSchemaInitExtension(&sc, (enum GeoArrowType)t.id));
    rc = fs ? GeoArrowArrayReaderInitFromSchema(&r, &sc, &err) : GeoArrowArrayReaderInitFromType(&r, (enum GeoArrowType)t.id);
    if (rc == 0) GeoArrowArrayReaderReset(&r);
  done:
    if (sc.release) sc.release(&sc);
  }
  return rc;
}
#elif OP == 7
static const char* const kn[] = {"void", "void_agg", "visit_void_agg", "format_wkt", "as_geoarrow", "unique_geometry_types_agg", "box", "box_agg"};
static int scenario(void) {
  int rc = 0, w = sx_choose(0, 7, "kernel"), t = (T);
  static const uint8_t opt[] = {1, 0, 0, 0, 4, 0, 0, 0, 't', 'y', 'p', 'e', 6, 0, 0, 0, '1', '0', '0', '0', '0', '1'};
  static const uint8_t optn[] = {1, 0, 0, 0, 4, 0, 0, 0, 't', 'y', 'p', 'e', 1, 0, 0, 0, '5'};
  const char* o = w == 4 ? (const char*)(sx_choose(0, 1, "target") ? optn : opt) : NULL;
  struct GeoArrowArrayWriter aw;
  struct GeoArrowVisitor v;
  struct ArrowArray a, res;
  struct ArrowSchema s, so;
  int gt = t < 100000 ? t % 1000 : 2;
  fixed_feats(gt, 1, 2);
  GeoArrowVisitorInitVoid(&v);
  SX_ASSERT(GeoArrowArrayWriterInitFromType(&aw, (enum GeoArrowType)t) == 0 && GeoArrowArrayWriterInitVisitor(&aw, &v) == 0, "harness: array");
  v.error = &err;
  SX_ASSERT(ev_play(&feats, &v, 0) == 0 && GeoArrowArrayWriterFinish(&aw, &a, &err) == 0, "harness: array");
  GeoArrowArrayWriterReset(&aw);
  SX_ASSERT(GeoArrowSchemaInitExtension(&s, (enum GeoArrowType)t) == 0, "harness: schema");
  res.release = NULL;
  so.release = NULL;
  struct GeoArrowKernel k;
  k.release = NULL;
  sx_fail_allocs(FAILS);
  int scalar = w == 0 || w == 3 || w == 4 || w == 6;
  TRY(GeoArrowKernelInit(&k, kn[w], NULL));
  TRY(k.start(&k, &s, o, &so, &err));
  for (int b = 0; b < 2; b++) {
    TRY(k.push_batch(&k, &a, scalar ? &res : NULL, &err));
    if (scalar) {
      SX_ASSERT(res.release != NULL && res.length == 3, "one per feature");
      if (w == 4 && o == (const char*)opt) check_array(&res, 100001);
      if (w == 3) check_array(&res, 100003);
      if (w == 6) {
        double d;
        memcpy(&d, res.children[0]->buffers[1], 8);
        SX_ASSERT(d < 100 && aref_null(&res, 1) && !aref_null(&res, 0), "boxes");
      }
      res.release(&res);
      res.release = NULL;
    }
  }
  TRY(k.finish(&k, scalar ? NULL : &res, &err));
  if (!scalar) SX_ASSERT(res.release != NULL && res.length == 1, "one result");
  if (w == 5) SX_ASSERT(*(const int32_t*)res.buffers[1] == gt, "type");
done:
  if (res.release) res.release(&res);
  if (so.release) so.release(&so);
  if (k.release) k.release(&k);
  a.release(&a);
  s.release(&s);
  return rc;
}
#elif OP == 8
static int scenario(void) {
  int rc = 0;
  struct GeoArrowScalarUdfFactory f;
  struct GeoArrowScalarUdf u;
  struct ArrowSchema in, out;
  struct ArrowArray res;
  in.release = out.release = NULL;
  res.release = NULL;
  SX_ASSERT(GeoArrowSchemaInitExtension(&in, GEOARROW_TYPE_POINT) == 0, "harness: schema");
  const struct ArrowSchema* args[1] = {&in};
  sx_fail_allocs(FAILS);
  u.release = NULL;
  f.release = NULL;
  TRY(GeoArrowScalarUdfFactoryInit(&f, "void", NULL, &err));
  f.new_scalar_udf_impl(&f, &u);
  TRY(u.init(&u, args, NULL, 1, &out));
  TRY(u.execute(&u, NULL, 0, 5, &res));
  SX_ASSERT(res.length == 5, "rows");
done:
  if (res.release) res.release(&res);
  if (out.release) out.release(&out);
  if (u.release) u.release(&u);
  if (f.release) f.release(&f);
  in.release(&in);
  return rc;
}
#endif
int sx_main(void) {
  int live0 = sx_live_allocs();
  sx_fail_alloc_at(-1);
  int rc = scenario();
  int f = fired();
  sx_fail_alloc_at(-1);
  if (rc && f) sx_cover("reported");
  if (!f) sx_cover("all allocations worked");
  SX_ASSERT(sx_live_allocs() == live0, "no leak, nothing freed twice");
  return 0;
}
