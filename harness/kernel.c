// Kernels over batches of arrays.  MODE 0 box, 1 box_agg, 2 format_wkt, 3 as_geoarrow, 4 unique_geometry_types_agg,
// 5 visit_void_agg, void and void_agg, 6 names, options and types.
#include <math.h>
#include <stdio.h>
#include "canon.h"
#include "types.h"
#include "wktref.h"
#ifndef MODE
#define MODE 0
#endif
#ifndef SRC
#define SRC 2
#endif
#ifndef DST
#define DST 100001
#endif
#ifndef G
#define G 0  // geometry type of the features; 0: that of the source type, any for WKB and WKT
#endif
#ifndef DIM
#define DIM 0
#endif
#ifndef NF
#define NF 2
#endif
#ifndef BATCHES
#define BATCHES 2
#endif
#ifndef MAXC
#define MAXC 2
#endif
#ifndef MAXP
#define MAXP 2
#endif
#ifndef DEPTH
#define DEPTH 0
#endif
#ifndef WLO
#define WLO 0
#define WHI 7
#endif
#ifndef SLICE
#define SLICE 1
#endif
#ifndef NOEMPTY
#define NOEMPTY 0
#endif
static struct GeoArrowError err;
static int counter;
#ifdef T16  // decimals that take the documented default precision of 16 digits
static const double tv[] = {0.5000152587890625, -0.1250152587890625, 0.7499847412109375, 0.0000152587890625, 1, -0.2500152587890625, 0.7500152587890625, 0, 30.5, -0.0000457763671875, 65536.25};
#else
static const double tv[] = {1, 30.5, -2, 0, 0.125, -1234567.0625, 99.75, 1024, 7, -0.5, 65536.25};
#endif
static int next_value(double* d, int i) {
  (void)i;
#ifdef PICK  // ordinates picked from a few
  static const double pv[] = {0, -1.5, 2.25, NAN};
  *d = pv[sx_choose(0, PICK - 1, "ordinate")];
#else
  *d = tv[counter++ % 11];
#endif
  return 0;
}
static int is_wkt(int t) { return t == 100003; }
static int is_wkb(int t) { return t == 100001; }
static int is_ser(int t) { return t > 100000; }
static const char* elem(const struct ArrowArray* a, int64_t k, int* n) {
  const int32_t* off = (const int32_t*)a->buffers[1];
  *n = off[a->offset + k + 1] - off[a->offset + k];
  return (const char*)a->buffers[2] + off[a->offset + k];
}
static int ser_valid(const struct ArrowArray* a) {
  if (a->n_buffers != 3 || a->n_children != 0 || a->offset != 0 || a->length < 0) return 0;
  int64_t nn = 0;
  if (a->buffers[0] && !sx_accessible(a->buffers[0], (uint64_t)(a->length + 7) / 8)) return 0;
  for (int64_t i = 0; i < a->length; i++) nn += aref_null(a, i);
  if (nn != a->null_count) return 0;
  const int32_t* o = (const int32_t*)a->buffers[1];
  if (!sx_accessible(o, (uint64_t)(a->length + 1) * 4)) return 0;
  if (o[0] != 0) return 0;
  for (int64_t i = 0; i < a->length; i++) if (o[i + 1] < o[i]) return 0;
  return o[a->length] == 0 || sx_accessible(a->buffers[2], (uint64_t)o[a->length]);
}
// features of the array by independent readers; its own text for WKT
static void decode(const struct ArrowArray* a, int t, int64_t k, struct evlist* out) {
  out->n = out->overflow = 0;
  if (t == 990) {  // a box is a rectangle; an inverted one an empty polygon
    double d[4];
    for (int j = 0; j < 4; j++) memcpy(&d[j], (const char*)a->children[j]->buffers[1] + 8 * (a->children[j]->offset + a->offset + k), 8);
    ev_add(out, EV_FS);
    if (aref_null(a, k)) ev_add(out, EV_NULL);
    else {
      ev_gs(out, 3, 1);
      if (!(d[0] > d[2]) && !(d[1] > d[3])) {
        const int ix[5] = {0, 2, 2, 0, 0}, iy[5] = {1, 1, 3, 3, 1};
        ev_add(out, EV_RS);
        for (int i = 0; i < 5; i++) {
          uint64_t c[2];
          memcpy(&c[0], &d[ix[i]], 8);
          memcpy(&c[1], &d[iy[i]], 8);
          ev_c(out, 2, c);
        }
        ev_add(out, EV_RE);
      }
      ev_add(out, EV_GE);
    }
    ev_add(out, EV_FE);
    return;
  }
  if (!is_ser(t)) { aref_feature(a, t % 1000, t % 10000 / 1000 + 1, t / 10000 + 1, k, out); return; }
  int n, nv = 0;
  const char* s = elem(a, k, &n);
  if (aref_null(a, k)) { ev_add(out, EV_FS); ev_add(out, EV_NULL); ev_add(out, EV_FE); return; }
  if (is_wkt(t)) {
    SX_ASSERT(wktref_read(s, n, out, &nv) == 1, "element is valid WKT");
    SX_ASSERT(!nv, "harness: ordinates exactly known");
  } else {
    struct wkbref r = {(const uint8_t*)s, (uint32_t)n, 0, 0, 0};
    ev_add(out, EV_FS);
    wkbref_geom(&r, out, 0);
    SX_ASSERT(!r.bad && r.pos == r.n, "element is valid WKB");
    ev_add(out, EV_FE);
  }
}
static int schema_bytes(const struct ArrowSchema* s, const char* key, const char** val, int* n) {
  struct ArrowStringView v = {NULL, 0};
  if (s->metadata == NULL || ArrowMetadataGetValue(s->metadata, ArrowCharView(key), &v) != 0 || v.data == NULL) return 0;
  *val = v.data;
  *n = (int)v.size_bytes;
  return 1;
}
static int same_options(const struct ArrowSchema* a, const struct ArrowSchema* b) {  // the extension metadata
  const char *x = "", *y = "";
  int n = 0, m = 0;
  schema_bytes(a, "ARROW:extension:metadata", &x, &n);
  schema_bytes(b, "ARROW:extension:metadata", &y, &m);
  if (n == 2 && memcmp(x, "{}", 2) == 0) n = 0;
  if (m == 2 && memcmp(y, "{}", 2) == 0) m = 0;
  return n == m && memcmp(x, y, (size_t)n) == 0;
}
static int type_of(const struct ArrowSchema* s) {
  const char* x;
  int n;
  return schema_bytes(s, "ARROW:extension:name", &x, &n) ? ref_type(s, x, n) : 0;
}
static const char* const meta[] = {"{}", "{\"crs\":\"OGC:CRS84\",\"crs_type\":\"authority_code\"}", "{\"crs\":{\"a\":1}}", "{\"crs\":\"x\",\"crs_type\":\"srid\",\"edges\":\"spherical\"}", "{\"edges\":\"vincenty\"}"};
static void source_schema(struct ArrowSchema* s, int t, int m) {
  SX_ASSERT(GeoArrowSchemaInitExtension(s, (enum GeoArrowType)t) == 0, "schema");
  if (m < 0) return;
  struct GeoArrowMetadataView mv;
  struct GeoArrowStringView sv = {meta[m], (int64_t)strlen(meta[m])};
  SX_ASSERT(GeoArrowMetadataViewInit(&mv, sv, NULL) == 0 && GeoArrowSchemaSetMetadata(s, &mv) == 0, "metadata");
}
static uint8_t optbuf[200];
static const char* options1(const char* key, const char* val, const char* key2, const char* val2) {
  int32_t n = (key != NULL) + (key2 != NULL), k;
  uint8_t* p = optbuf;
  memcpy(p, &n, 4); p += 4;
  for (int i = 0; i < n; i++) {
    const char* s[2] = {i == 0 && key ? key : key2, i == 0 && key ? val : val2};
    for (int j = 0; j < 2; j++) {
      k = (int32_t)strlen(s[j]);
      memcpy(p, &k, 4); p += 4;
      memcpy(p, s[j], (size_t)k); p += k;
    }
  }
  return (const char*)optbuf;
}
#if MODE < 6
// a batch of boxes
static struct ArrowArray box, boxkids[4];
static struct ArrowArray* boxkid[4];
static const void* boxbufs[5][2];
static uint8_t boxbits[1];
static double boxv[4][NF + 1];
static void box_release(struct ArrowArray* a) { a->release = NULL; }
static int box_array(struct ArrowArray* a, int n, struct evlist* ref) {
  memset(&box, 0, sizeof box);
  memset(boxkids, 0, sizeof boxkids);
  boxbits[0] = 0;
  ref->n = 0;
  for (int i = 0; i < n; i++) {
    int isnull = sx_choose(0, 1, "null");
    if (!isnull) boxbits[0] |= (uint8_t)(1 << i);
    ev_add(ref, EV_FS);
    if (isnull) ev_add(ref, EV_NULL);
    ev_add(ref, EV_FE);
    for (int j = 0; j < 4; j++)
#ifdef PICK
      next_value(&boxv[j][i], 0);
#else
      sx_make_symbolic(&boxv[j][i], 8, "bound");
#endif
  }
  for (int j = 0; j < 4; j++) {
    boxbufs[j + 1][1] = boxv[j];
    boxkids[j].length = n;
    boxkids[j].n_buffers = 2;
    boxkids[j].buffers = boxbufs[j + 1];
    boxkids[j].release = &box_release;
    boxkid[j] = &boxkids[j];
  }
  boxbufs[0][0] = boxbits;
  box.length = n;
  box.null_count = -1;
  box.n_buffers = 1;
  box.n_children = 4;
  box.buffers = boxbufs[0];
  box.children = boxkid;
  box.release = &box_release;
  *a = box;
  return 0;
}
static struct evlist ref, one, got, exp1, cref, cgot, all[BATCHES * NF + 1];
static int nall;
#if MODE == 0 || MODE == 1
static int fsame(double a, double b) { return a == b; }
static void check_bounds(const struct evlist* l, int nl, const double* b) {
  for (int j = 0; j < 2; j++) {
    double lo = b[j], hi = b[j + 2];
    int nlo = 0, nhi = 0, some = 0, out = 0;
    for (int k = 0; k < nl; k++)
      for (int i = 0; i < l[k].n; i++) {
        if (l[k].e[i].op != EV_C) continue;
        double d;
        memcpy(&d, &l[k].e[i].v[j], 8);
        int num = d == d;
        some |= num;
        out |= num & ((d < lo) | (d > hi));
        nlo |= num & (d == lo);
        nhi |= num & (d == hi);
      }
    SX_ASSERT(!out, "no coordinate outside the box");
    if (some) {
      SX_ASSERT(nlo, "the minimum is a coordinate");
      SX_ASSERT(nhi, "the maximum is a coordinate");
      sx_cover("bounds");
    } else {
      SX_ASSERT(fsame(lo, INFINITY) && fsame(hi, -INFINITY), "the inverted infinite box without coordinates");
      sx_cover("no bounds");
    }
  }
}
static void check_box(const struct ArrowArray* a, int n) {
  SX_ASSERT(a->length == n && a->offset == 0, "one box per feature");
  SX_ASSERT(a->n_buffers == 1 && a->n_children == 4, "a struct of four");
  int nn = 0;
  if (a->buffers[0]) SX_ASSERT(sx_accessible(a->buffers[0], (uint64_t)(n + 7) / 8), "validity long enough");
  for (int k = 0; k < n; k++) nn += aref_null(a, k);
  SX_ASSERT(a->null_count == nn, "null count");
  for (int j = 0; j < 4; j++) {
    const struct ArrowArray* c = a->children[j];
    SX_ASSERT(c->n_buffers == 2 && c->length == n && c->offset == 0 && c->null_count == 0 && c->buffers[0] == NULL, "child");
    SX_ASSERT(n == 0 || sx_accessible(c->buffers[1], (uint64_t)n * 8), "child values");
  }
}
static void box_at(const struct ArrowArray* a, int k, double* b) {
  for (int j = 0; j < 4; j++) memcpy(&b[j], (const char*)a->children[j]->buffers[1] + 8 * k, 8);
}
#endif
static const char* const names[] = {"box", "box_agg", "format_wkt", "as_geoarrow", "unique_geometry_types_agg"};
int sx_main(void) {
  int live0 = sx_live_allocs();
  struct GeoArrowKernel kernel;
  struct ArrowSchema s, out;
  struct ArrowArray a, res;
  const char* opt = NULL;
  const char* name = MODE < 5 ? names[MODE < 5 ? MODE : 0] : "visit_void_agg";
#if MODE == 5
  int which = sx_choose(0, 2, "kernel");
  if (which) name = which == 1 ? "void" : "void_agg";
#endif
  static char num[16];
#if MODE == 3
  snprintf(num, sizeof num, "%d", (int)(DST));
  opt = options1("type", num, NULL, NULL);
#elif MODE == 2
#ifdef LIMIT
  int limit = sx_choose(0, LIMIT, "limit");
  snprintf(num, sizeof num, "%d", limit);
  opt = options1("max_element_size_bytes", num, NULL, NULL);
#endif
#endif
  SX_ASSERT(GeoArrowKernelInit(&kernel, name, NULL) == 0, "kernel exists");
  source_schema(&s, (SRC), 1);
  SX_ASSERT(kernel.start(&kernel, &s, opt, &out, &err) == 0, "starts");
  int scalar = MODE == 0 || MODE == 2 || MODE == 3;
#if MODE == 5
  scalar = which == 1;
  SX_ASSERT(seq(out.format, "n"), "output type");
#elif MODE == 0 || MODE == 1
  SX_ASSERT(type_of(&out) == 990 && same_options(&s, &out), "output is a box with the metadata of the input");
#elif MODE == 2
  SX_ASSERT(seq(out.format, "u") && type_of(&out) == 0, "output is text");
#elif MODE == 3
  SX_ASSERT(type_of(&out) == (DST) && same_options(&s, &out), "output is of the type, with the metadata of the input");
#else
  SX_ASSERT(seq(out.format, "i"), "output is int32");
#endif
  ArrowSchemaRelease(&s);
  ArrowSchemaRelease(&out);
  int st = (SRC), ser = is_ser(st), gt = G ? G : ser ? 0 : st == 990 ? 3 : st % 1000, dim = DIM ? DIM : ser ? 1 : st % 10000 / 1000 + 1, failed = 0;
  struct GeoArrowArrayWriter w;
  struct GeoArrowVisitor v;
  // boxes cannot be written: the writer is of another type then and unused
  SX_ASSERT(GeoArrowArrayWriterInitFromType(&w, (enum GeoArrowType)(st == 990 ? 3 : st)) == 0, "harness: writer");
  GeoArrowVisitorInitVoid(&v);
  SX_ASSERT(GeoArrowArrayWriterInitVisitor(&w, &v) == 0, "harness: writer");
  v.error = &err;
  counter = nall = 0;
  for (int b = 0; b < BATCHES && !failed; b++) {
    struct gen g = {&v, &ref, MAXC, MAXP, 0, 0, 0, NOEMPTY, DEPTH, NULL};
    ref.n = ref.overflow = 0;
#ifndef PICK
    if (is_wkt(st) || MODE == 2 || (MODE == 3 && is_wkt(DST)))
#endif
      g.value = next_value;
    #ifdef NULLS
    int nf = NF;
#else
    int nf = sx_choose(0, NF, "features");
#endif
    if (st == 990) g.rc = box_array(&a, nf, &ref);
    else for (int k = 0; k < nf; k++) gen_feature(&g, gt, dim, 1);
    SX_ASSERT(g.rc == 0, "harness: source array");
    if (st != 990) SX_ASSERT(GeoArrowArrayWriterFinish(&w, &a, &err) == 0, "harness: source array");
    int cut = SLICE && nf ? sx_choose(0, 1, "slice") : 0;
    a.offset += cut;
    a.length -= cut;
    if (cut) a.null_count = -1;
    nf -= cut;
    int nall0 = nall;
    for (int k = 0; k < nf; k++) {
      decode(&a, st, k, &all[nall]);
#if MODE < 2
      ev_feature(&ref, k + cut, &one);  // of null features nothing counts
      if (ev_has(&one, EV_NULL)) all[nall].n = 0;
#endif
      nall++;
    }
    (void)nall0;
    res.release = NULL;
    int rc = kernel.push_batch(&kernel, &a, scalar ? &res : NULL, &err);
    // what the kernel hands out does not depend on the batch it came from
    a.release(&a);
#if MODE == 3
    if (rc != 0) {  // possible when the features do not fit the type
      int dt = DST, sgt = gt;
      int narrow = !is_ser(dt) && (ser || sgt != dt % 1000) && !(sgt + 3 == dt % 1000);
      SX_ASSERT(narrow, "features that fit are converted");
      sx_cover("refused");
      failed = 1;
      continue;
    }
#endif
    SX_ASSERT(rc == 0, "batch is accepted");
    if (!scalar) continue;
    SX_ASSERT(res.release != NULL, "batch result");
#if MODE == 0
    check_box(&res, nf);
    for (int k = 0; k < nf; k++) {
      ev_feature(&ref, k + cut, &one);
      SX_ASSERT(aref_null(&res, k) == ev_has(&one, EV_NULL), "null exactly where the feature was null");
      if (aref_null(&res, k)) { sx_cover("null"); continue; }
      double bb[4];
      box_at(&res, k, bb);
      check_bounds(&all[nall0 + k], 1, bb);
    }
#elif MODE == 2 || MODE == 3
    int dt = MODE == 2 ? 100003 : (DST);
    SX_ASSERT(res.length == nf && res.offset == 0, "one element per feature");
    if (is_ser(dt)) SX_ASSERT(ser_valid(&res), "valid Arrow array");
    else SX_ASSERT(aref_valid(&res, dt % 1000, dt / 10000 + 1, dt % 10000 / 1000 + 1, 1), "valid Arrow array of the type");
    for (int k = 0; k < nf; k++) {
      ev_feature(&ref, k + cut, &one);
      const struct evlist* x = &all[nall0 + k];
      SX_ASSERT(aref_null(&res, k) == ev_has(&one, EV_NULL), "null exactly where the feature was null");
      if (aref_null(&res, k)) { sx_cover("null"); continue; }
      if (ev_has(x, EV_C)) sx_cover("coords");
#if MODE == 2 && defined(LIMIT)
      int n;
      const char* t = elem(&res, k, &n);
      SX_ASSERT(n <= limit, "no longer than the limit");
      // the complete text by the writer itself (its own properties are P06 and P07)
      struct GeoArrowWKTWriter ww;
      struct GeoArrowVisitor wv;
      struct ArrowArray wa;
      SX_ASSERT(GeoArrowWKTWriterInit(&ww) == 0, "harness: writer");
      GeoArrowVisitorInitVoid(&wv);
      GeoArrowWKTWriterInitVisitor(&ww, &wv);
      wv.error = &err;
      SX_ASSERT(ev_play(x, &wv, 0) == 0 && GeoArrowWKTWriterFinish(&ww, &wa, &err) == 0, "harness: writer");
      int wn;
      const char* wt = elem(&wa, 0, &wn);
      SX_ASSERT(n == (wn < limit ? wn : limit) && memcmp(t, wt, (size_t)n) == 0, "the text up to the limit");
      if (wn > limit) sx_cover("cut");
      wa.release(&wa);
      GeoArrowWKTWriterReset(&ww);
#else
      decode(&res, dt, k, &got);
      if (is_ser(dt)) {
        if (is_wkb(dt)) ev_nan_points(x, &exp1); else exp1 = *x;
        ev_assert_same(&exp1, &got, "feature");
      } else {
        int tgt = dt % 1000, cgt = tgt, tdim = dt % 10000 / 1000 + 1;
        if (gt == 0 || (gt != tgt && gt + 3 != tgt)) cgt = tgt == 1 ? 1 : 2;
        canon(x, cgt, tdim, 1, &cref);
        canon(&got, cgt, tdim, 1, &cgot);
        if (tgt == 1 && cref.n == 0) ev_c(&cref, (uint32_t)gen_nd(tdim), (uint64_t[]){NAN_BITS, NAN_BITS, NAN_BITS, NAN_BITS});
        ev_assert_same(&cref, &cgot, "feature");
      }
#endif
    }
#else
    SX_ASSERT(res.length == nf && res.null_count == nf && res.n_buffers == 0, "one null per feature");
#endif
    res.release(&res);
  }
  GeoArrowArrayWriterReset(&w);
  if (!failed) {
    res.release = NULL;
    SX_ASSERT(kernel.finish(&kernel, scalar ? NULL : &res, &err) == 0, "finishes");
    if (!scalar) {
      SX_ASSERT(res.release != NULL, "aggregate result");
#if MODE == 1
      check_box(&res, 1);
      SX_ASSERT(!aref_null(&res, 0), "one box");
      double bb[4];
      box_at(&res, 0, bb);
      check_bounds(all, nall, bb);
#elif MODE == 4
      int want[64], nw = 0;
      for (int d = 1; d <= 4; d++)
        for (int t = 1; t <= 7; t++) {
          int seen = 0;
          for (int k = 0; k < nall; k++) seen |= all[k].n > 2 && all[k].e[1].op == EV_GS && (int)all[k].e[1].gt == t && (int)all[k].e[1].dim == d && ev_has(&all[k], EV_C);
          if (seen) want[nw++] = (d - 1) * 1000 + t;
        }
      SX_ASSERT(res.length == nw && res.null_count == 0 && res.offset == 0 && res.n_buffers == 2 && res.buffers[0] == NULL, "as many types as were seen");
      SX_ASSERT(nw == 0 || sx_accessible(res.buffers[1], (uint64_t)nw * 4), "values");
      for (int i = 0; i < nw; i++) SX_ASSERT(((const int32_t*)res.buffers[1])[i] == want[i], "the types seen, in order");
      if (nw > 1) sx_cover("several");
      if (nw == 0) sx_cover("none");
#else
      SX_ASSERT(res.length == 1 && res.null_count == 1, "one null");
#endif
      res.release(&res);
    }
  }
  kernel.release(&kernel);
  SX_ASSERT(kernel.release == NULL, "released");
  SX_ASSERT(sx_live_allocs() <= live0, "no leak");
  return 0;
}
#else
static const char* const kn[] = {"void", "void_agg", "visit_void_agg", "format_wkt", "as_geoarrow", "unique_geometry_types_agg", "box", "box_agg"};
int sx_main(void) {
  int live0 = sx_live_allocs();
  struct GeoArrowKernel kernel;
  kernel.release = NULL;
  struct ArrowSchema s, out;
  s.release = out.release = NULL;
#ifdef NAME  // every name one symbolic character away from one of the kernels
  static char name[40];
  int w = sx_choose(0, 7, "kernel"), n = (int)strlen(kn[w]), at = sx_choose(0, n, "at"), same = 0;
  memcpy(name, kn[w], (size_t)n + 1);
  name[at] = (char)sx_u8("char");
  if (at == n) name[n + 1] = 0;
  for (int i = 0; i < 8; i++) same |= strcmp(name, kn[i]) == 0;
  int rc = GeoArrowKernelInit(&kernel, name, NULL);
  SX_ASSERT((rc == 0) == same, "exactly the named kernels exist");
  if (rc == 0) { kernel.release(&kernel); sx_cover("known"); }
  else { SX_ASSERT(rc == ENOTSUP, "unknown kernels are not supported"); sx_cover("unknown"); }
#else
  int w = sx_choose(WLO, WHI, "kernel");
  struct tdesc t = tdesc_of(sx_choose(0, NTYPES - 1, "type"));
  int m = sx_choose(-1, 4, "metadata");
#ifndef ALL
  if (w == 4 && t.id % 1000 > 3 && t.id != 100006) return 0;
  if (w == 4 && m != -1 && m != 1 && m != 4) return 0;
#endif
  SX_ASSERT(GeoArrowKernelInit(&kernel, kn[w], NULL) == 0, "kernel exists");
  source_schema(&s, t.id, m);
  const char* opt = NULL;
  static char num[24];
  int target = 0, has = 0;
  switch (w == 4 ? sx_choose(0, 5, "option") : 0) {
    case 1: {
      struct tdesc d = tdesc_of(sx_choose(0, NTYPES - 1, "target"));
      target = d.id;
      has = (d.gt >= 1 && d.gt <= 6) || d.id == 100001 || d.id == 100003;
      snprintf(num, sizeof num, "%d", target);
      opt = options1("type", num, NULL, NULL);
      break;
    }
    case 2: opt = options1("typ", "1", "types", "1"); break;
    case 3: {  // a number that is not a type
      static const char* const bad[] = {"0", "-1", "7", "4001", "20001", "999999", "100007", "", "x", "99999999999999999999"};
      opt = options1("type", bad[sx_choose(0, 9, "bad")], NULL, NULL);
      break;
    }
    case 4: opt = options1("other", "1", "type", "100001"); target = 100001; has = 1; break;
    case 5: opt = options1(NULL, NULL, NULL, NULL); break;
  }
  int rc = kernel.start(&kernel, &s, opt, &out, &err);
  int want = 1;
  if (w == 4) want = has;
  if (w >= 6) want = m < 3;  // bounds need planar edges
  SX_ASSERT((rc == 0) == want, "started exactly when the options and the input type allow it");
  if (rc == 0) {
    SX_ASSERT(out.release != NULL, "output schema");
    if (w >= 6) SX_ASSERT(type_of(&out) == 990 && same_options(&s, &out), "a box with the metadata of the input");
    if (w == 4) SX_ASSERT(type_of(&out) == target && same_options(&s, &out), "the type, with the metadata of the input");
    sx_cover("started");
  } else {
    SX_ASSERT(out.release == NULL, "no output schema left when refused");
    sx_cover("refused");
  }
  if (s.release) s.release(&s);
  if (out.release) out.release(&out);
  kernel.release(&kernel);
  SX_ASSERT(kernel.release == NULL, "released");
#endif
  SX_ASSERT(sx_live_allocs() <= live0, "no leak");
  return 0;
}
#endif
