// Features written through the WKT writer: each element of the array reads back (independent reader) as
// exactly its feature.  LIMIT: the batch written with a size limit holds prefixes of the unlimited one.
#include "gen.h"
#include "wktref.h"
#ifndef TYPE
#define TYPE 0
#endif
#ifndef DIM
#define DIM 1
#endif
#ifndef NF
#define NF 1
#endif
#ifndef MAXC
#define MAXC 2
#endif
#ifndef MAXP
#define MAXP 2
#endif
#ifndef DEPTH
#define DEPTH 1
#endif
#ifndef LAYOUT
#define LAYOUT 2
#endif
#ifndef LIMITLO
#define LIMITLO 0
#endif
#ifndef BATCHES
#define BATCHES 1
#endif
static struct evlist ref, one, got;
static int counter;
#ifdef T16  // decimals that take the documented default precision of 16 digits
static const double t[] = {0.5000152587890625, -0.1250152587890625, 0.7499847412109375, 0.0000152587890625, 1, -0.2500152587890625, 0.7500152587890625, 0, 30.5, -0.0000457763671875, 65536.25};
#else
static const double t[] = {1, 30.5, -2, 0, 0.125, -1234567.0625, 99.75, 1024, 7, -0.5, 65536.25};
#endif
#if defined(PREC) && PREC == 1
// the same to one decimal
static const double t1[] = {1, 30.5, -2, 0, 0.1, -1234567.1, 99.8, 1024, 7, -0.5, 65536.2};
static void to_precision(struct evlist* l) {
  for (int i = 0; i < l->n; i++)
    for (int j = 0; j < (int)l->e[i].nv; j++)
      for (int k = 0; k < 11; k++) {
        double d;
        memcpy(&d, &l->e[i].v[j], 8);
        if (d == t[k]) { memcpy(&l->e[i].v[j], &t1[k], 8); break; }
      }
}
#else
#define to_precision(l) (void)0
#endif
static int next_value(double* d, int i) {
  (void)i;
#ifdef SYMBITS
  if (counter == 1) {
    counter++;
    *d = (double)(sx_u8("q") & ((1 << SYMBITS) - 1)) / 8 - 2;
    return 0;
  }
#endif
  *d = t[counter++ % 11];
  return 0;
}
static const char* element(const struct ArrowArray* a, int k, int* n) {
  const int32_t* off = (const int32_t*)a->buffers[1];
  SX_ASSERT(off[k] <= off[k + 1], "monotonic offsets");
  *n = off[k + 1] - off[k];
  return (const char*)a->buffers[2] + off[k];
}
static int valid(const struct ArrowArray* a, int k) {
  const uint8_t* v = (const uint8_t*)a->buffers[0];
  return v == NULL ? 1 : (v[k / 8] >> (k % 8)) & 1;
}
static void check_shape(const struct ArrowArray* a, const struct evlist* refs, int nf) {
  SX_ASSERT(a->length == nf && a->n_buffers == 3 && a->offset == 0, "one element per feature");
  SX_ASSERT(((const int32_t*)a->buffers[1])[0] == 0, "starts at zero");
  int nnull = 0;
  for (int k = 0; k < nf; k++) {
    ev_feature(refs, k, &one);
    int isnull = ev_has(&one, EV_NULL);
    nnull += isnull;
    SX_ASSERT(valid(a, k) == !isnull, "null exactly where the feature was null");
    if (isnull) { int n; element(a, k, &n); SX_ASSERT(n == 0, "null takes no bytes"); sx_cover("null"); }
  }
  SX_ASSERT(a->null_count == nnull, "null count");
}
static void check_batch(const struct ArrowArray* a, const struct evlist* refs, int nf, int flat) {
  check_shape(a, refs, nf);
  for (int k = 0; k < nf; k++) {
    ev_feature(refs, k, &one);
    if (ev_has(&one, EV_NULL)) continue;
    to_precision(&one);
    int n, novalue = 0;
    const char* s = element(a, k, &n);
    SX_ASSERT(wktref_read(s, n, &got, &novalue) == 1, "element is valid WKT");
    SX_ASSERT(!novalue, "harness: ordinates exactly known");
    ev_assert_same(&got, &one, "wkt");
    if (one.e[1].gt == 4 && ev_has(&one, EV_C)) {
      int opens = 0;
      for (int i = 0; i < n; i++) opens += s[i] == '(';
      SX_ASSERT((opens == 1) == flat, "flat multipoints exactly when asked");
    }
    sx_observe_bytes(s, n);
    if (ev_has(&one, EV_C)) sx_cover("coords");
    else sx_cover("empty");
  }
}
int sx_main(void) {
  int live0 = sx_live_allocs();
  struct GeoArrowError err;
  struct GeoArrowVisitor v, vl;
  struct GeoArrowWKTWriter w, wl;
  if (GeoArrowWKTWriterInit(&w)) return 1;
#ifdef FLAT
  w.use_flat_multipoint = FLAT;
#else
  w.use_flat_multipoint = sx_choose(0, 1, "flat");
#endif
#ifdef PREC
  w.precision = PREC;
#endif
  GeoArrowWKTWriterInitVisitor(&w, &v);
  v.error = &err;
#ifdef LIMIT
  if (GeoArrowWKTWriterInit(&wl)) return 1;
  wl.use_flat_multipoint = w.use_flat_multipoint;
  wl.max_element_size_bytes = sx_choose(LIMITLO, LIMIT, "limit");
  int limit = (int)wl.max_element_size_bytes;
  GeoArrowWKTWriterInitVisitor(&wl, &vl);
  vl.error = &err;
#endif
  for (int b = 0; b < BATCHES; b++) {
    struct gen g = {NULL, &ref, MAXC, MAXP, LAYOUT,
#ifdef NOSPLIT
                    0,
#else
                    1,
#endif
                    0, 0, DEPTH, next_value};
    ref.n = ref.overflow = 0;
#ifndef LIMIT
    g.v = &v;
#endif
    for (int k = 0; k < NF; k++) {
#ifdef FEW
      g.noempty = k > FEW;
#endif
      gen_feature(&g, TYPE, DIM, 1);
    }
    SX_ASSERT(g.rc == 0, "feature is accepted");
    struct ArrowArray a;
#ifdef LIMIT
    struct ArrowArray al;
    SX_ASSERT(ev_play(&ref, &v, 0) == 0, "feature is accepted");
    SX_ASSERT(ev_play(&ref, &vl, sx_choose(0, 1, "grouping")) == 0, "feature is accepted with a limit");
    SX_ASSERT(GeoArrowWKTWriterFinish(&w, &a, &err) == 0 && GeoArrowWKTWriterFinish(&wl, &al, &err) == 0, "finishes");
    check_shape(&a, &ref, NF);
    check_shape(&al, &ref, NF);
    for (int k = 0; k < NF; k++) {
      int n, m;
      const char* s = element(&a, k, &n);
      const char* t = element(&al, k, &m);
      SX_ASSERT(m <= limit, "no longer than the limit");
      SX_ASSERT(n <= limit ? m == n : m == limit, "elements within the limit are complete, others are cut at the limit");
      SX_ASSERT(m <= n && memcmp(s, t, m) == 0, "a prefix of the unlimited element");
      if (n > limit) sx_cover("cut");
      else sx_cover("whole");
    }
    al.release(&al);
#else
    int rc = GeoArrowWKTWriterFinish(&w, &a, &err);
    SX_ASSERT(rc == 0, "finishes");
    check_batch(&a, &ref, NF, w.use_flat_multipoint);
#endif
    a.release(&a);
  }
  GeoArrowWKTWriterReset(&w);
#ifdef LIMIT
  GeoArrowWKTWriterReset(&wl);
#endif
  SX_ASSERT(sx_live_allocs() <= live0, "no leak");
  return 0;
}
