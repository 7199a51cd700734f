// Features written to a native array: the array is valid Arrow and holds exactly the features.
// MODE 0 visitor, MODE 1 geometry values, MODE 2 any type identifier.
#include "canon.h"
#include "types.h"
#ifndef T
#define T 1
#endif
#ifndef S
#define S 0  // source geometry type; 0: that of the array
#endif
#ifndef DIM
#define DIM 0  // source dimensions; 0: those of the array
#endif
#ifndef NF
#define NF 2
#endif
#ifndef MAXC
#define MAXC 2
#endif
#ifndef MAXP
#define MAXP 2
#endif
#ifndef MODE
#define MODE 0
#endif
#ifndef BATCHES
#define BATCHES 1
#endif
#ifndef DEPTH
#define DEPTH 1
#endif
#ifndef NOEMPTY
#define NOEMPTY 0
#endif
#ifndef SPLIT
#define SPLIT 1
#endif
static struct evlist ref, one, got, cref, cgot;
#if MODE < 2
int sx_main(void) {
  int live0 = sx_live_allocs();
  int tgt = T % 1000, tdim = T % 10000 / 1000 + 1, tcoord = T / 10000 + 1, src = S ? S : tgt, sdim = DIM ? DIM : tdim;
  struct GeoArrowNativeWriter w;
  SX_ASSERT(GeoArrowNativeWriterInit(&w, (enum GeoArrowType)(T)) == 0, "writer for every native type");
  struct GeoArrowVisitor v;
  struct GeoArrowError err;
  GeoArrowVisitorInitVoid(&v);
#if MODE == 0
  SX_ASSERT(GeoArrowNativeWriterInitVisitor(&w, &v) == 0, "visitor for every native type");
#else
  struct GeoArrowGeometry geom;
  if (GeoArrowGeometryInit(&geom)) return 1;
  GeoArrowGeometryInitVisitor(&geom, &v);
#endif
  v.error = &err;
  int refused = 0;
  for (int b = 0; b < BATCHES && !refused; b++) {
    struct gen g = {&v, &ref, MAXC, MAXP, MODE == 0 && !NOEMPTY ? 2 : 0, MODE == 0 && SPLIT, 0, NOEMPTY, DEPTH, NULL};
    ref.n = ref.overflow = 0;
    int nf = NF == 9 ? 9 : sx_choose(0, NF, "nfeatures");
    for (int k = 0; k < nf && !refused; k++) {
      int fits = 1;
#if MODE == 0
      gen_feature(&g, src, sdim, 1);
#else
      if (sx_choose(0, 1, "null")) {
        ev_add(&ref, EV_FS); ev_add(&ref, EV_NULL); ev_add(&ref, EV_FE);
        g.rc = GeoArrowNativeWriterAppendNull(&w);
      } else {
        gen_feature(&g, src, sdim, 0);
        SX_ASSERT(g.rc == 0, "geometry builds");
        g.rc = GeoArrowNativeWriterAppend(&w, GeoArrowGeometryAsView(&geom), &err);
      }
#endif
      ev_feature(&ref, k, &one);
      int nc = 0;
      for (int i = 0; i < one.n; i++) nc += one.e[i].op == EV_C;
      if (tgt == 1) fits = nc <= 1;
      else if (src == tgt + 3 && src > 4 && (MODE == 0 || nc > 0)) fits = parts_of(&one) <= 1;
#ifdef LOOSE  // whether other conversions are accepted, and how they divide the coordinates, is not claimed
      fits = g.rc == 0;
#endif
      SX_ASSERT((g.rc == 0) == fits, "accepted exactly when the type can hold the feature");
      if (!fits) { SX_ASSERT(g.rc == EINVAL, "refused as invalid"); refused = 1; sx_cover("refused"); }
    }
    if (refused) break;
    struct ArrowArray a;
    SX_ASSERT(GeoArrowNativeWriterFinish(&w, &a, &err) == 0, "finishes");
    SX_ASSERT(a.length == nf && a.offset == 0, "one element per feature");
    SX_ASSERT(aref_valid(&a, tgt, tcoord, tdim, 1), "valid Arrow array of the type");
    for (int k = 0; k < nf; k++) {
      ev_feature(&ref, k, &one);
      got.n = got.overflow = 0;
      SX_ASSERT(aref_null(&a, k) == ev_has(&one, EV_NULL), "null exactly where the feature was null");
      if (aref_null(&a, k)) { sx_cover("null"); continue; }
      aref_feature(&a, tgt, tdim, tcoord, k, &got);
#ifdef LOOSE
      int cgt = tgt == 1 ? 1 : 2;
#else
      int cgt = tgt;
#endif
      canon(&one, cgt, tdim, MODE == 0, &cref);
      canon(&got, cgt, tdim, MODE == 0, &cgot);
      if (tgt == 1 && cref.n == 0) {  // an empty point has only NaN
        ev_c(&cref, (uint32_t)gen_nd(tdim), (uint64_t[]){NAN_BITS, NAN_BITS, NAN_BITS, NAN_BITS});
        sx_cover("empty");
      }
      if (ev_has(&cref, EV_C)) sx_cover("coords");
      ev_assert_same(&cref, &cgot, "feature");
    }
    a.release(&a);
  }
  GeoArrowNativeWriterReset(&w);
#if MODE == 1
  GeoArrowGeometryReset(&geom);
#endif
  SX_ASSERT(sx_live_allocs() <= live0, "no leak");
  return 0;
}
#else
// any type: a writer either works for one empty and one null feature or is refused
int sx_main(void) {
  int live0 = sx_live_allocs();
  struct tdesc t = tdesc_of(sx_choose(0, NTYPES - 1, "type"));
  struct GeoArrowNativeWriter w;
  int rc = GeoArrowNativeWriterInit(&w, (enum GeoArrowType)t.id);
  int native = t.gt >= 1 && t.gt <= 6;
  if (native) SX_ASSERT(rc == 0, "writer for every native type");
  if (rc == 0) {
    struct GeoArrowVisitor v;
    struct GeoArrowError err;
    GeoArrowVisitorInitVoid(&v);
    v.error = &err;
    rc = GeoArrowNativeWriterInitVisitor(&w, &v);
    SX_ASSERT((rc == 0) == native, "visitor exactly for the native geometry types");
    if (native) {
      rc = GeoArrowNativeWriterAppendNull(&w);
      if (rc == 0) { v.feat_start(&v); v.geom_start(&v, (enum GeoArrowGeometryType)t.gt, (enum GeoArrowDimensions)t.dim); v.geom_end(&v); rc = v.feat_end(&v); }
      SX_ASSERT(rc == 0, "writes");
      struct ArrowArray a;
      SX_ASSERT(GeoArrowNativeWriterFinish(&w, &a, &err) == 0, "finishes");
      SX_ASSERT(a.length == 2 && aref_valid(&a, t.gt, t.coord, t.dim, 1) && aref_null(&a, 0) && !aref_null(&a, 1), "null then empty");
      a.release(&a);
      sx_cover("works");
    } else sx_cover("refused");
    GeoArrowNativeWriterReset(&w);
  } else sx_cover("refused");
  SX_ASSERT(sx_live_allocs() <= live0, "no leak");
  return 0;
}
#endif
