// Features written through the WKB writer: the output array decodes (with the
// independent decoder) to exactly the features.  MODE 0 visitor, MODE 1 geometry values.
#include "gen.h"
#ifndef TYPE
#define TYPE 0
#endif
#ifndef DIM
#define DIM 1
#endif
#ifndef NF
#define NF 1
#endif
#ifndef MAXC
#define MAXC 2
#endif
#ifndef MAXP
#define MAXP 2
#endif
#ifndef MODE
#define MODE 0
#endif
#ifndef DEPTH
#define DEPTH 1
#endif
#ifndef LAYOUT
#define LAYOUT 2
#endif
static struct evlist ref, one, want, got;
static void check_batch(const struct ArrowArray* a, const struct evlist* refs, int nf) {
  SX_ASSERT(a->length == nf, "one element per feature");
  SX_ASSERT(a->n_buffers == 3, "binary layout");
  const uint8_t* valid = (const uint8_t*)a->buffers[0];
  const int32_t* off = (const int32_t*)a->buffers[1];
  const uint8_t* data = (const uint8_t*)a->buffers[2];
  SX_ASSERT(a->offset == 0 && off[0] == 0, "starts at zero");
  int nnull = 0;
  for (int k = 0; k < nf; k++) {
    ev_feature(refs, k, &one);
    int isnull = ev_has(&one, EV_NULL);
    nnull += isnull;
    int v = valid == NULL ? 1 : (valid[k / 8] >> (k % 8)) & 1;
    SX_ASSERT(v == !isnull, "null exactly where the feature was null");
    SX_ASSERT(off[k] <= off[k + 1], "monotonic offsets");
    if (isnull) { SX_ASSERT(off[k] == off[k + 1], "null takes no bytes"); continue; }
    ev_nan_points(&one, &want);
    struct wkbref r = {data + off[k], (uint32_t)(off[k + 1] - off[k]), 0, 0};
    got.n = got.overflow = 0;
    ev_add(&got, EV_FS);
    wkbref_geom(&r, &got, 0);
    ev_add(&got, EV_FE);
    SX_ASSERT(!r.bad, "element is a complete valid WKB");
    SX_ASSERT(r.pos == r.n, "element has no trailing bytes");
    ev_assert_same(&got, &want, "wkb");
    sx_observe_bytes(data + off[k], off[k + 1] - off[k]);
  }
  SX_ASSERT(a->null_count == nnull || a->null_count == -1, "null count");
}
int sx_main(void) {
  int live0 = sx_live_allocs();
  struct GeoArrowWKBWriter w;
  if (GeoArrowWKBWriterInit(&w)) return 1;
  struct GeoArrowVisitor v;
  GeoArrowVisitorInitVoid(&v);
  struct GeoArrowError err;
#if MODE == 0
  GeoArrowWKBWriterInitVisitor(&w, &v);
#else
  struct GeoArrowGeometry geom;
  if (GeoArrowGeometryInit(&geom)) return 1;
  GeoArrowGeometryInitVisitor(&geom, &v);
#endif
  v.error = &err;
#ifndef BATCHES
#define BATCHES 1
#endif
  for (int b = 0; b < BATCHES; b++) {
    struct gen g = {&v, &ref, MAXC, MAXP, LAYOUT, 1, 0, LAYOUT == 0, DEPTH, NULL};
    ref.n = ref.overflow = 0;
    for (int k = 0; k < NF; k++) {
#if MODE == 0
      gen_feature(&g, TYPE, DIM, 1);
#else
      if (sx_choose(0, 1, "null")) {
        ev_add(&ref, EV_FS); ev_add(&ref, EV_NULL); ev_add(&ref, EV_FE);
        g.rc = GeoArrowWKBWriterAppendNull(&w);
      } else {
        gen_feature(&g, TYPE, DIM, 0);
        SX_ASSERT(g.rc == 0, "geometry builds");
        g.rc = GeoArrowWKBWriterAppend(&w, GeoArrowGeometryAsView(&geom));
      }
#endif
      SX_ASSERT(g.rc == 0, "feature is accepted");
    }
    struct ArrowArray a;
    int rc = GeoArrowWKBWriterFinish(&w, &a, &err);
    SX_ASSERT(rc == 0, "finishes");
    check_batch(&a, &ref, NF);
    if (ev_has(&ref, EV_NULL)) sx_cover("null"); else sx_cover("allvalid");
    if (ev_has(&ref, EV_C)) sx_cover("coords");
    a.release(&a);
  }
  GeoArrowWKBWriterReset(&w);
#if MODE == 1
  GeoArrowGeometryReset(&geom);
#endif
  SX_ASSERT(sx_live_allocs() <= live0, "no leak");
  return 0;
}
