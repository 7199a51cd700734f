// Failed calls: the same with and without an error object, a message in the error object, output arguments not touched.
// MODE 0 schema views, 1 metadata, 2 type identifiers, 3 WKB, 4 WKT, 5 arrays of another structure, 6 writers that hold unfinished features,
// 7 kernels: names, options, storage, 8 kernels: malformed features, 9 scalar functions, numbers, node lists
#include "types.h"
#include "aref.h"
#ifndef MODE
#define MODE 0
#endif
#ifndef N
#define N 3
#endif
#ifndef PRE
#if MODE == 3
#define PRE
#else
#define PRE ""
#endif
#endif
#ifndef PAD
#define PAD 0  // so many letters more in front of the symbolic part: messages quote the input
#endif
#ifndef POST
#define POST ""
#endif
static struct GeoArrowError err;
static struct GeoArrowError* fresh(int round) {
  memset(err.message, 0x5a, sizeof err.message);
  err.message[0] = 0;
  return round ? NULL : &err;
}
static void poison(void* p, size_t n) { memset(p, 0x5a, n); }
static int untouched(const void* p, size_t n) {
  const uint8_t* b = (const uint8_t*)p;
  int ok = 1;
  for (size_t i = 0; i < n; i++) ok &= b[i] == 0x5a;
  return ok;
}
// an output that owns memory may also be left marked as released
#define LEFT_ALONE(o) SX_ASSERT(untouched(&(o), sizeof(o)) || (o).release == NULL, "the output is not touched by a failure")
static int rcs[2];
static void message(int rc) {
  if (rc == 0) return;
  SX_ASSERT(err.message[0] != 0, "a failure has a message");
  SX_ASSERT(memchr(err.message, 0, sizeof err.message) != NULL, "that ends inside the error object");
}
static void same(void) {
  SX_ASSERT(rcs[0] == rcs[1], "the same result without an error object");
  if (rcs[0]) sx_cover("failed");
  else sx_cover("worked");
}
static char* text(const char* pre, int n, const char* post, int64_t* len) {
  size_t a0 = strlen(pre), b = strlen(post), a = a0 + PAD;
  char* s = (char*)malloc(a + (size_t)n + b + 1);
  memcpy(s, pre, a0);
  memset(s + a0, 'x', PAD);
  if (n) sx_make_symbolic(s + a, (uint64_t)n, "text");
  memcpy(s + a + n, post, b);
  *len = (int64_t)(a + b) + n;
  return s;
}
#if MODE == 0
static struct ArrowSchema* node_at(struct ArrowSchema* s, int k) {
  while (k > 0 && s->n_children == 1) { s = s->children[0]; k--; }
  return k > 0 && k <= s->n_children ? s->children[k - 1] : k > 0 ? NULL : s;
}
static void run(void) {
  struct tdesc t = tdesc_of(sx_choose(KLO, KHI, "type"));
  struct ArrowSchema s;
  SX_ASSERT(GeoArrowSchemaInitExtension(&s, (enum GeoArrowType)t.id) == 0, "schema");
  struct ArrowSchema* nd = node_at(&s, sx_choose(0, 6, "node"));
  sx_assume(nd != NULL);
  int how = sx_choose(0, 4, "how");
  char f[N + 1];
  sx_make_symbolic(f, N, "text");
  f[N] = 0;
  for (int i = 0; i < N; i++) sx_assume(f[i] != 0);
  if (N > 3) sx_assume(!(f[0] == '+' && f[1] == 'w' && f[2] == ':'));
  const char *of = nd->format, *on = nd->name;
  int64_t oc = nd->n_children;
  if (how == 0) nd->format = f;
  else if (how == 1) nd->name = f;
  else if (how == 2) nd->name = NULL;
  else if (how == 3) { sx_assume(oc > 0); nd->n_children = oc - 1; }
  else nd->metadata == NULL ? (void)0 : (void)SX_ASSERT(ArrowSchemaSetMetadata(nd, NULL) == 0, "no metadata");
  struct GeoArrowSchemaView v;
  struct GeoArrowStringView e = {how == 4 ? f : t_ext(t), how == 4 ? N : (int64_t)strlen(t_ext(t))};
  for (int which = 0; which < 5; which++) {
    for (int r = 0; r < 2; r++) {
      struct GeoArrowError* ep = fresh(r);
      poison(&v, sizeof v);
      if (which == 0) rcs[r] = GeoArrowSchemaViewInit(&v, &s, ep);
      else if (which == 1) rcs[r] = GeoArrowSchemaViewInitFromStorage(&v, &s, e, ep);
      else if (which == 2) {
        struct GeoArrowArrayView av;
        rcs[r] = GeoArrowArrayViewInitFromSchema(&av, &s, ep);
      } else if (which == 3) {
        struct GeoArrowArrayReader rd;
        rcs[r] = GeoArrowArrayReaderInitFromSchema(&rd, &s, ep);
        if (rcs[r] == 0) GeoArrowArrayReaderReset(&rd);
      } else {
        struct GeoArrowBuilder b;
        rcs[r] = GeoArrowBuilderInitFromSchema(&b, &s, ep);
        if (rcs[r] == 0) GeoArrowBuilderReset(&b);
      }
      if (r == 0) message(rcs[r]);
      if (rcs[r]) SX_ASSERT(untouched(&v, sizeof v), "the output is not touched by a failure");
    }
    same();
  }
  nd->format = of;
  nd->name = on;
  nd->n_children = oc;
  ArrowSchemaRelease(&s);
}
#elif MODE == 1
static void run(void) {
  struct GeoArrowStringView sv;
  char* s = text(PRE, N, POST, &sv.size_bytes);
  sv.data = s;
  struct GeoArrowMetadataView m;
  for (int r = 0; r < 2; r++) {
    struct GeoArrowError* ep = fresh(r);
    poison(&m, sizeof m);
    rcs[r] = GeoArrowMetadataViewInit(&m, sv, ep);
    if (r == 0) message(rcs[r]);
    if (rcs[r]) SX_ASSERT(untouched(&m, sizeof m), "the output is not touched by a failure");
  }
  same();
  free(s);
}
#elif MODE == 2
static void run(void) {
  int32_t id;
  sx_make_symbolic(&id, 4, "type");
  struct GeoArrowSchemaView v;
  struct ArrowSchema s;
  poison(&v, sizeof v);
  if (GeoArrowSchemaViewInitFromType(&v, (enum GeoArrowType)id)) {
    SX_ASSERT(untouched(&v, sizeof v), "the output is not touched by a failure");
    sx_cover("failed");
  }
  for (int r = 0; r < 2; r++) {
    poison(&s, sizeof s);
    if ((r ? GeoArrowSchemaInit : GeoArrowSchemaInitExtension)(&s, (enum GeoArrowType)id)) {
      LEFT_ALONE(s);
      sx_cover("failed");
    } else {
      ArrowSchemaRelease(&s);
      sx_cover("worked");
    }
  }
}
#elif MODE == 3
static const uint8_t pre[] = {PRE 0};
static void run(void) {
  int n = (int)sizeof(pre) - 1 + N;
  uint8_t* b = (uint8_t*)malloc((size_t)n + 1);
  memcpy(b, pre, sizeof(pre) - 1);
  sx_make_symbolic(b + sizeof(pre) - 1, N, "bytes");
  struct GeoArrowBufferView bv = {b, n};
  struct GeoArrowWKBReader rd;
  static struct evlist got;
  struct GeoArrowVisitor v;
  SX_ASSERT(GeoArrowWKBReaderInit(&rd) == 0, "reader");
  for (int which = 0; which < 2; which++) {
    for (int r = 0; r < 2; r++) {
      struct GeoArrowError* ep = fresh(r);
      struct GeoArrowGeometryView g;
      poison(&g, sizeof g);
      ev_visitor(&got, &v, ep);
      rcs[r] = which ? GeoArrowWKBReaderVisit(&rd, bv, &v) : GeoArrowWKBReaderRead(&rd, bv, &g, ep);
      if (r == 0) message(rcs[r]);
      if (rcs[r]) SX_ASSERT(untouched(&g, sizeof g), "the output is not touched by a failure");
    }
    same();
  }
  GeoArrowWKBReaderReset(&rd);
  free(b);
}
#elif MODE == 4
static void run(void) {
  struct GeoArrowStringView sv;
  char* s = text(PRE, N, POST, &sv.size_bytes);
  sv.data = s;
  static struct evlist got;
  struct GeoArrowVisitor v;
  struct GeoArrowWKTReader rd;
  SX_ASSERT(GeoArrowWKTReaderInit(&rd) == 0, "reader");
  for (int r = 0; r < 2; r++) {
    ev_visitor(&got, &v, fresh(r));
    rcs[r] = GeoArrowWKTReaderVisit(&rd, sv, &v);
    if (r == 0) message(rcs[r]);
  }
  same();
  GeoArrowWKTReaderReset(&rd);
  free(s);
}
#elif MODE == 5
static void run(void) {
  struct tdesc t = tdesc_of(sx_choose(0, NTYPES - 1, "type"));
  struct ArrowSchema sb;
  struct tdesc tb = tdesc_of(sx_choose(0, NTYPES - 1, "type of the array"));
  sx_assume(t.gt || tb.gt || t.id == tb.id);  // the widths of string arrays cannot be told apart
  SX_ASSERT(GeoArrowSchemaInit(&sb, (enum GeoArrowType)tb.id) == 0, "schema");
  struct ArrowArray a;
  SX_ASSERT(ArrowArrayInitFromSchema(&a, &sb, NULL) == 0 && ArrowArrayStartAppending(&a) == 0 && ArrowArrayAppendEmpty(&a, 2) == 0 && ArrowArrayFinishBuildingDefault(&a, NULL) == 0, "array");
  ArrowSchemaRelease(&sb);
  for (int which = 0; which < 2; which++) {
    for (int r = 0; r < 2; r++) {
      struct GeoArrowError* ep = fresh(r);
      if (which) {
        struct GeoArrowArrayReader rd;
        const struct GeoArrowArrayView* av;
        SX_ASSERT(GeoArrowArrayReaderInitFromType(&rd, (enum GeoArrowType)t.id) == 0, "reader");
        rcs[r] = GeoArrowArrayReaderSetArray(&rd, &a, ep);
        poison(&av, sizeof av);
        int rc = GeoArrowArrayReaderArrayView(&rd, &av);
        if (rc) SX_ASSERT(untouched(&av, sizeof av), "the output is not touched by a failure");
        GeoArrowArrayReaderReset(&rd);
      } else {
        struct GeoArrowArrayView view;
        SX_ASSERT(GeoArrowArrayViewInitFromType(&view, (enum GeoArrowType)t.id) == 0, "view");
        rcs[r] = GeoArrowArrayViewSetArray(&view, &a, ep);
      }
      if (r == 0) message(rcs[r]);
    }
    same();
  }
  ArrowArrayRelease(&a);
}
#elif MODE == 6
// any callbacks, then finish
static int call(struct GeoArrowVisitor* v, int op, int gt) {
  static const double d[4] = {1, 2, 3, 4};
  struct GeoArrowCoordView c;
  memset(&c, 0, sizeof c);
  c.n_coords = 1; c.n_values = 2; c.coords_stride = 2;
  c.values[0] = d; c.values[1] = d + 1;
  switch (op) {
    case 0: return v->feat_start(v);
    case 1: return v->null_feat(v);
    case 2: return v->geom_start(v, (enum GeoArrowGeometryType)gt, GEOARROW_DIMENSIONS_XY);
    case 3: return v->ring_start(v);
    case 4: return v->coords(v, &c);
    case 5: return v->ring_end(v);
    case 6: return v->geom_end(v);
    default: return v->feat_end(v);
  }
}
static void run(void) {
  int op[STEPS], gt[STEPS];
  for (int i = 0; i < STEPS; i++) {
    op[i] = sx_choose(i ? 0 : 0, 7, "call");
    gt[i] = op[i] == 2 ? sx_choose(0, 7, "geometry") : 0;
  }
  int bad[2] = {0, 0};
  for (int r = 0; r < 2; r++) {
    struct GeoArrowArrayWriter w;
    struct GeoArrowVisitor v;
    struct ArrowArray a;
    GeoArrowVisitorInitVoid(&v);
    SX_ASSERT(GeoArrowArrayWriterInitFromType(&w, (enum GeoArrowType)(T)) == 0 && GeoArrowArrayWriterInitVisitor(&w, &v) == 0, "writer");
    int rc = 0;
    for (int i = 0; i < STEPS; i++) {
      v.error = fresh(r);
      rc = call(&v, op[i], gt[i]);
      if (rc) { bad[r] = bad[r] * 100 + i + 1; break; }
    }
    struct GeoArrowError* ep = fresh(r);
    poison(&a, sizeof a);
    rcs[r] = GeoArrowArrayWriterFinish(&w, &a, ep);
    if (r == 0) message(rcs[r]);
    if (rcs[r]) LEFT_ALONE(a);
    else ArrowArrayRelease(&a);
    GeoArrowArrayWriterReset(&w);
  }
  SX_ASSERT(bad[0] == bad[1], "the same calls refused");
  same();
}
#elif MODE == 7
static void run(void) {
  static const char* const kn[] = {"void", "void_agg", "visit_void_agg", "format_wkt", "as_geoarrow", "unique_geometry_types_agg", "box", "box_agg"};
  int w = sx_choose(0, 7, "kernel");
  struct tdesc t = tdesc_of(sx_choose(0, NTYPES - 1, "type"));
  int ext = sx_choose(0, 1, "extension");
  static uint8_t opt[] = {1, 0, 0, 0, 4, 0, 0, 0, 't', 'y', 'p', 'e', N, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0};
  int key = sx_choose(0, 3, "options");  // none, type, precision-like, unknown
  sx_make_symbolic(opt + 16, N, "value");
  for (int i = 0; i < N; i++) sx_assume(opt[16 + i] != 0);
  struct ArrowSchema s;
  SX_ASSERT((ext ? GeoArrowSchemaInitExtension : GeoArrowSchemaInit)(&s, (enum GeoArrowType)t.id) == 0, "schema");
  uint8_t long_opt[40];
  const char* o = key == 0 ? NULL : (const char*)opt;
  if (key == 2) {
    memcpy(long_opt, "\1\0\0\0\11\0\0\0precision", 17);
    memcpy(long_opt + 17, opt + 12, 4 + N);
    o = (const char*)long_opt;
  } else if (key == 3) opt[8] = 'z';
  else opt[8] = 't';
  for (int r = 0; r < 2; r++) {
    struct GeoArrowKernel k;
    struct ArrowSchema so;
    SX_ASSERT(GeoArrowKernelInit(&k, kn[w], NULL) == 0, "kernel");
    struct GeoArrowError* ep = fresh(r);
    poison(&so, sizeof so);
    rcs[r] = k.start(&k, &s, o, &so, ep);
    if (r == 0) message(rcs[r]);
    if (rcs[r]) LEFT_ALONE(so);
    else if (so.release) ArrowSchemaRelease(&so);
    k.release(&k);
  }
  same();
  ArrowSchemaRelease(&s);
}
#elif MODE == 8
static void run(void) {
  static const char* const kn[] = {"visit_void_agg", "format_wkt", "as_geoarrow", "unique_geometry_types_agg", "box", "box_agg"};
  int w = sx_choose(0, 5, "kernel"), wkb = sx_choose(0, 1, "WKB");
  static const uint8_t opt[] = {1, 0, 0, 0, 4, 0, 0, 0, 't', 'y', 'p', 'e', 1, 0, 0, 0, OUT};
  struct ArrowSchema s;
  SX_ASSERT(GeoArrowSchemaInitExtension(&s, wkb ? GEOARROW_TYPE_WKB : GEOARROW_TYPE_WKT) == 0, "schema");
  static const uint8_t pt[] = {1, 1, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0xf0, 0x3f, 0, 0, 0, 0, 0, 0, 0, 0x40};
  uint8_t* data = (uint8_t*)malloc(64);
  int len[2];
  uint8_t sym[N];
  sx_make_symbolic(sym, N, "text");
  int at = sx_choose(0, 1, "which is malformed");
  int32_t off[3] = {0, 0, 0};
  int p = 0;
  for (int i = 0; i < 2; i++) {
    len[i] = i == at ? N : wkb ? 21 : 11;
    memcpy(data + p, i == at ? (const void*)sym : wkb ? (const void*)pt : (const void*)"POINT (1 2)", (size_t)len[i]);
    p += len[i];
    off[i + 1] = p;
  }
  const void* bufs[3] = {NULL, off, data};
  struct ArrowArray a;
  memset(&a, 0, sizeof a);
  a.length = 2;
  a.n_buffers = 3;
  a.buffers = bufs;
  int scalar = w == 1 || w == 2 || w == 4;
  for (int r = 0; r < 2; r++) {
    struct GeoArrowKernel k;
    struct ArrowSchema so;
    struct ArrowArray res;
    SX_ASSERT(GeoArrowKernelInit(&k, kn[w], NULL) == 0, "kernel");
    SX_ASSERT(k.start(&k, &s, w == 2 ? (const char*)opt : NULL, &so, fresh(r)) == 0, "start");
    struct GeoArrowError* ep = fresh(r);
    poison(&res, sizeof res);
    rcs[r] = k.push_batch(&k, &a, scalar ? &res : NULL, ep);
    if (r == 0) message(rcs[r]);
    if (rcs[r] || !scalar) LEFT_ALONE(res);
    else ArrowArrayRelease(&res);
    ArrowSchemaRelease(&so);
    k.release(&k);
  }
  same();
  ArrowSchemaRelease(&s);
  free(data);
}
#elif MODE == 9
static void run(void) {
  int64_t len;
  char* s = text("", N, "", &len);
  // a scalar function by name
  char name[N + 1];
  memcpy(name, s, N);
  name[N] = 0;
  for (int r = 0; r < 2; r++) {
    struct GeoArrowScalarUdfFactory f;
    struct GeoArrowError* ep = fresh(r);
    poison(&f, sizeof f);
    rcs[r] = GeoArrowScalarUdfFactoryInit(&f, name, NULL, ep);
    if (r == 0) message(rcs[r]);
    if (rcs[r]) LEFT_ALONE(f);
    else f.release(&f);
  }
  same();
  struct GeoArrowKernel k;
  poison(&k, sizeof k);
  if (GeoArrowKernelInit(&k, name, NULL)) LEFT_ALONE(k);
  else k.release(&k);
  double d;
  poison(&d, sizeof d);
  if (GeoArrowFromChars(s, s + len, &d)) { SX_ASSERT(untouched(&d, sizeof d), "the output is not touched by a failure"); sx_cover("no number"); }
  free(s);
}
#elif MODE == 10
static void run(void) {
  struct tdesc t = tdesc_of(sx_choose(KLO, KHI, "type"));
  int depth = aref_depth(t.gt);
  sx_assume(depth > 0);
  int32_t off[2];
  sx_make_symbolic(off, 8, "offsets");
  int n = sx_choose(0, 2, "offsets appended"), at = sx_choose(0, depth - 1, "level");
  int bad = 0;
  for (int r = 0; r < 2; r++) {
    struct GeoArrowBuilder b;
    struct ArrowArray a;
    SX_ASSERT(GeoArrowBuilderInitFromType(&b, (enum GeoArrowType)t.id) == 0, "builder");
    int32_t zero = 0;
    for (int l = 0; l < depth; l++) SX_ASSERT((l == at ? GeoArrowBuilderOffsetAppend(&b, l, off, n) : GeoArrowBuilderOffsetAppend(&b, l, &zero, 1)) == 0, "offsets");
    struct GeoArrowError* ep = fresh(r);
    poison(&a, sizeof a);
    rcs[r] = GeoArrowBuilderFinish(&b, &a, ep);
    if (r == 0) message(rcs[r]);
    if (rcs[r]) LEFT_ALONE(a);
    else {
      ArrowArrayRelease(&a);
      bad |= n == 2 && off[1] > 0;
    }
    GeoArrowBuilderReset(&b);
  }
  SX_ASSERT(!bad, "offsets beyond the child are refused");
  same();
}
#elif MODE == 11
static void run(void) {
  static const int lens[] = {0, 1, 5, 1000, 1022, 1023, 1024, 1025, 3000};
  int n = lens[sx_choose(0, 8, "length")];
  char* s = (char*)malloc((size_t)n + 1);
  memset(s, 'x', (size_t)n);
  if (n) { s[0] = (char)(97 + sx_choose(0, 1, "first")); s[n - 1] = (char)(97 + sx_choose(0, 1, "last")); }
  s[n] = 0;
  int num = sx_choose(0, 1, "format");
  struct { struct GeoArrowError e; char after[8]; } o;
  memset(&o, 0x5a, sizeof o);
  int size = (int)sizeof o.e.message;
  int rc = num ? GeoArrowErrorSet(&o.e, "%d: %s", 42, s) : GeoArrowErrorSet(&o.e, "%s", s);
  char* full = (char*)malloc((size_t)n + 5);
  memcpy(full, "42: ", 4);
  memcpy(full + (num ? 4 : 0), s, (size_t)n + 1);
  int total = n + (num ? 4 : 0);
  SX_ASSERT(rc == (total < size ? 0 : ERANGE), "a message that does not fit is told");
  int kept = total < size ? total : size - 1;
  SX_ASSERT(sx_bytes_eq(o.e.message, full, (uint64_t)kept) && o.e.message[kept] == 0, "the message, or as much of it as fits");
  SX_ASSERT(untouched(o.after, 8), "nothing is written behind the error object");
  SX_ASSERT(GeoArrowErrorSet(NULL, "%s", s) == 0, "no error object, no message");
  free(full);
  free(s);
  if (rc) sx_cover("failed"); else sx_cover("worked");
}
#endif
int sx_main(void) {
  int live0 = sx_live_allocs();
  run();
  SX_ASSERT(sx_live_allocs() == live0, "no allocation left");
  return 0;
}
