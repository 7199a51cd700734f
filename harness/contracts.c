// Arrow C contracts.  MODE 0: which types readers, writers and builders take, for every identifier
// 1: scalar functions  2: writer histories  3: released structures, moved children
#include "canon.h"
#include "types.h"
#include "wktref.h"
#ifndef MODE
#define MODE 0
#endif
#ifndef T
#define T 2
#endif
#ifndef STEPS
#define STEPS 4
#endif
static struct GeoArrowError err;
#if MODE == 0
// an empty array of the type
static void check_empty(const struct ArrowArray* a, int id) {
  SX_ASSERT(a->release != NULL && a->length == 0 && a->offset == 0 && a->null_count == 0, "empty array");
  for (int k = 0; k < NTYPES; k++) {
    struct tdesc t = tdesc_of(k);
    if (t.id != id) continue;
    const struct ArrowArray* c = a;
    for (int l = 0; t.gt && l < t_depth(t.gt) && t.gt != 990; l++) {
      SX_ASSERT(c->n_buffers == 2 && c->n_children == 1 && c->length == 0, "list levels of the type");
      c = c->children[0];
    }
    int nk = !t.gt ? 0 : t.gt == 990 ? 2 * t_nd(t.dim) : t.coord == 1 ? t_nd(t.dim) : 1;
    SX_ASSERT(c->n_children == nk && c->n_buffers == (t.gt ? 1 : 3) && c->length == 0, "coordinates of the type");
    for (int j = 0; j < nk; j++) SX_ASSERT(c->children[j]->n_buffers == 2 && c->children[j]->n_children == 0 && c->children[j]->length == 0, "ordinates");
  }
}
int sx_main(void) {
  int live0 = sx_live_allocs();
  int32_t id = sx_i32("type"), known = 0;
  sx_assume(id != 0);  // the placeholder for no type: whether it is taken is unspecified
  for (int k = 0; k < NTYPES; k++) if (tdesc_of(k).id == id) known = 1;
  int gt = id % 1000, who = sx_choose(0, 3, "who"), rc;
  int large = id == 100002 || id == 100004 || id == 100005 || id == 100006;
  if (who == 0) {
    struct GeoArrowArrayReader r;
    rc = GeoArrowArrayReaderInitFromType(&r, (enum GeoArrowType)id);
    // a number that is no type at all may get as far as the array itself
    if (known) SX_ASSERT(rc == 0, "readers take every type");
    if (rc == 0 && !known) GeoArrowArrayReaderReset(&r);
    else if (rc == 0) {
      const struct GeoArrowArrayView* av = NULL;
      rc = GeoArrowArrayReaderArrayView(&r, &av);
      SX_ASSERT((rc == 0) == !large, "a view unless offsets are wide or absent");
      if (rc == 0) SX_ASSERT((int32_t)av->schema_view.type == id, "type of the view");
      struct GeoArrowVisitor v;
      GeoArrowVisitorInitVoid(&v);
      v.error = &err;
      SX_ASSERT(GeoArrowArrayReaderVisit(&r, 0, 0, &v) == 0, "nothing to read");
      GeoArrowArrayReaderReset(&r);
      sx_cover("reader");
    } else sx_cover("reader refuses");
  } else if (who == 1) {
    struct GeoArrowArrayWriter w;
    struct GeoArrowVisitor v;
    struct ArrowArray a;
    GeoArrowVisitorInitVoid(&v);
    rc = GeoArrowArrayWriterInitFromType(&w, (enum GeoArrowType)id);
    if (!known || large) SX_ASSERT(rc != 0, "refused");
    if (known && !large && gt != 990) SX_ASSERT(rc == 0, "taken");
    if (rc == 0) {
      SX_ASSERT((GeoArrowArrayWriterSetPrecision(&w, 3) == 0) == (id == 100003), "precision is for text");
      SX_ASSERT((GeoArrowArrayWriterSetFlatMultipoint(&w, 0) == 0) == (id == 100003), "layout of points is for text");
      rc = GeoArrowArrayWriterInitVisitor(&w, &v);
      SX_ASSERT((rc == 0) == (gt != 990), "boxes cannot be written");
      if (rc == 0) {
        SX_ASSERT(GeoArrowArrayWriterFinish(&w, &a, &err) == 0, "finishes");
        check_empty(&a, id);
        a.release(&a);
        SX_ASSERT(a.release == NULL, "marked as released");
        sx_cover("writer");
      } else sx_cover("visitor refused");
      GeoArrowArrayWriterReset(&w);
      SX_ASSERT(w.private_data == NULL, "reset");
    } else sx_cover("writer refuses");
  } else if (who == 2) {
    struct GeoArrowBuilder b;
    struct ArrowArray a;
    rc = GeoArrowBuilderInitFromType(&b, (enum GeoArrowType)id);
    SX_ASSERT((rc == 0) == (known && id < 100005), "builders for all but the view types");
    if (rc == 0) {
      SX_ASSERT(GeoArrowBuilderFinish(&b, &a, &err) == 0, "finishes");
      check_empty(&a, id);
      a.release(&a);
      SX_ASSERT(a.release == NULL, "marked as released");
      GeoArrowBuilderReset(&b);
      sx_cover("builder");
    } else sx_cover("builder refuses");
  } else {
    struct GeoArrowArrayView av;
    rc = GeoArrowArrayViewInitFromType(&av, (enum GeoArrowType)id);
    if (known) SX_ASSERT(rc == 0, "views take every type");
    if (rc == 0 && known) {
      struct tdesc t = {0, 0, 0, 0};
      for (int k = 0; k < NTYPES; k++) if (tdesc_of(k).id == id) t = tdesc_of(k);
      int depth = !t.gt ? 1 : t.gt == 990 ? 0 : t_depth(t.gt);
      SX_ASSERT(av.n_offsets == depth, "levels");
      if (t.gt) {
        int nv = t.gt == 990 ? 2 * t_nd(t.dim) : t_nd(t.dim);
        SX_ASSERT(av.coords.n_values == nv && av.coords.coords_stride == (t.coord == 1 ? 1 : nv) && av.coords.n_coords == 0, "coordinates");
      }
      sx_cover("view");
    } else sx_cover("view refuses");
  }
  SX_ASSERT(sx_live_allocs() == live0, "no allocation left");
  return 0;
}
#elif MODE == 1
int sx_main(void) {
  int live0 = sx_live_allocs();
  struct GeoArrowScalarUdfFactory f;
  struct GeoArrowScalarUdf u[2];
  struct ArrowSchema out;
  struct ArrowArray res;
  memset(&f, 0x5a, sizeof f);
  memset(u, 0x5a, sizeof u);
  char name[6];
  sx_make_symbolic(name, 5, "name");
  name[5] = 0;
  err.message[0] = 0;
  int rc = GeoArrowScalarUdfFactoryInit(&f, name, NULL, &err);
  SX_ASSERT((rc == 0) == (strcmp(name, "void") == 0), "exactly the known functions");
  if (rc) {
    SX_ASSERT(err.message[0] != 0, "says what is wrong");
    sx_cover("refused");
    SX_ASSERT(sx_live_allocs() == live0, "no allocation left");
    return 0;
  }
  int n = sx_choose(1, 2, "functions"), early = sx_choose(0, 1, "factory released first");
  for (int i = 0; i < n; i++) f.new_scalar_udf_impl(&f, &u[i]);
  if (early) {
    f.release(&f);
    SX_ASSERT(f.release == NULL, "factory marked as released");
  }
  struct ArrowSchema in;
  SX_ASSERT(GeoArrowSchemaInitExtension(&in, GEOARROW_TYPE_POINT) == 0, "harness: schema");
  const struct ArrowSchema* args[2] = {&in, &in};
  for (int i = 0; i < n; i++) {
    int k = sx_choose(0, 2, "arguments");
    SX_ASSERT(u[i].init(&u[i], args, NULL, k, &out) == 0, "takes any arguments");
    SX_ASSERT(strcmp(out.format, "n") == 0 && out.n_children == 0, "result type");
    out.release(&out);
    int batches = sx_choose(0, 2, "batches");
    for (int b = 0; b < batches; b++) {
      int64_t rows = sx_i64("rows");
      sx_assume(rows >= 0);
      SX_ASSERT(u[i].execute(&u[i], NULL, 0, rows, &res) == 0, "executes");
      SX_ASSERT(res.length == rows && res.null_count == rows && res.offset == 0 && res.n_buffers == 0 && res.n_children == 0, "one null per row");
      res.release(&res);
      SX_ASSERT(res.release == NULL, "marked as released");
      sx_cover("executed");
    }
    const char* m = u[i].get_last_error(&u[i]);
    if (m) SX_ASSERT(sx_accessible(m, 1), "message");
    u[i].release(&u[i]);
    SX_ASSERT(u[i].release == NULL, "function marked as released");
  }
  if (!early) {
    f.release(&f);
    SX_ASSERT(f.release == NULL, "factory marked as released");
  }
  in.release(&in);
  SX_ASSERT(sx_live_allocs() == live0, "no allocation left");
  return 0;
}
#elif MODE == 2
// features and Finish in any order: every array holds exactly the features since the one before
static struct evlist feats, one, part, cref, cgot;
static const char* elem(const struct ArrowArray* a, int64_t k, int* n) {
  const int32_t* off = (const int32_t*)a->buffers[1];
  *n = off[k + 1] - off[k];
  return (const char*)a->buffers[2] + off[k];
}
static int small(double* d, int i) { (void)i; static const double t[] = {1, 30.5, -2, 0}; static int s; *d = t[s++ % 4]; return 0; }
static void check(const struct ArrowArray* a, int n) {
  int t = (T), gt = t % 1000, dim = t % 10000 / 1000 + 1;
  SX_ASSERT(a->length == n && a->offset == 0, "one element per feature since the last array");
  if (t < 100000) SX_ASSERT(aref_valid(a, gt, t / 10000 + 1, dim, 1), "valid array");
  int64_t nn = 0;
  for (int k = 0; k < n; k++) {
    ev_feature(&feats, k, &one);
    nn += ev_has(&one, EV_NULL);
    SX_ASSERT(aref_null(a, k) == ev_has(&one, EV_NULL), "null exactly where the feature was null");
    if (aref_null(a, k)) continue;
    part.n = part.overflow = 0;
    if (t < 100000) {
      aref_feature(a, gt, dim, t / 10000 + 1, k, &part);
      canon(&one, gt, dim, 1, &cref);
      canon(&part, gt, dim, 1, &cgot);
      ev_assert_same(&cref, &cgot, "feature");
    } else {
      int m, nv = 0;
      const char* s = elem(a, k, &m);
      if (t == 100003) SX_ASSERT(wktref_read(s, m, &part, &nv) == 1, "valid text");
      else {
        struct wkbref r = {(const uint8_t*)s, (uint32_t)m, 0, 0, 0};
        ev_add(&part, EV_FS);
        wkbref_geom(&r, &part, 0);
        SX_ASSERT(!r.bad && r.pos == r.n, "valid WKB");
        ev_add(&part, EV_FE);
      }
      ev_assert_same(&one, &part, "feature");
    }
  }
  SX_ASSERT(a->null_count == nn, "null count");
}
int sx_main(void) {
  int live0 = sx_live_allocs();
  struct GeoArrowArrayWriter w;
  struct GeoArrowVisitor v;
  struct ArrowArray a[STEPS];
  GeoArrowVisitorInitVoid(&v);
  SX_ASSERT(GeoArrowArrayWriterInitFromType(&w, (enum GeoArrowType)(T)) == 0 && GeoArrowArrayWriterInitVisitor(&w, &v) == 0, "writer");
  v.error = &err;
  int n = 0, na = 0;
  struct gen g = {&v, &feats, 1, 1, 0, 0, 0, 0, 0, (T) == 100003 ? &small : NULL};
  feats.n = feats.overflow = 0;
  for (int s = 0; s < STEPS; s++) {
    int op = sx_choose(0, 2, "step");
    if (op < 2) {
      if (op == 0) {
        ev_add(&feats, EV_FS);
        ev_add(&feats, EV_NULL);
        ev_add(&feats, EV_FE);
        v.feat_start(&v);
        g.rc = v.null_feat(&v);
        v.feat_end(&v);
      } else {
        g.noempty = (T) % 1000 == 1;
        gen_feature(&g, (T) < 100000 ? (T) % 1000 : 4, (T) < 100000 ? (T) % 10000 / 1000 + 1 : 2, 0);
      }
      SX_ASSERT(g.rc == 0, "accepted");
      n++;
    } else {
      SX_ASSERT(GeoArrowArrayWriterFinish(&w, &a[na], &err) == 0, "finishes");
      check(&a[na], n);
      na++;
      n = feats.n = 0;
      if (na == 2) sx_cover("second array");
      if (sx_choose(0, 1, "another visitor")) {
        SX_ASSERT(GeoArrowArrayWriterInitVisitor(&w, &v) == 0, "visitor");
        v.error = &err;
      }
    }
  }
  GeoArrowArrayWriterReset(&w);
  for (int i = 0; i < na; i++) {
    SX_ASSERT(a[i].release != NULL, "arrays outlive the writer");
    a[i].release(&a[i]);
    SX_ASSERT(a[i].release == NULL, "marked as released");
  }
  SX_ASSERT(sx_live_allocs() == live0, "no allocation left");
  return 0;
}
#else
// children taken from a structure live on after it is released
int sx_main(void) {
  int live0 = sx_live_allocs();
  struct tdesc t = tdesc_of(sx_choose(0, NTYPES - 1, "type"));
  struct ArrowSchema s, sk;
  sk.release = NULL;
  int ext = sx_choose(0, 1, "extension"), lv = sx_choose(0, 3, "level"), ix = sx_choose(0, 7, "child");
  SX_ASSERT((ext ? GeoArrowSchemaInitExtension(&s, (enum GeoArrowType)t.id) : GeoArrowSchemaInit(&s, (enum GeoArrowType)t.id)) == 0, "schema");
  struct ArrowSchema* p = &s;
  for (int l = 0; l < lv && p->n_children == 1; l++) p = p->children[0];
  if (ix < p->n_children) {
    sk = *p->children[ix];
    p->children[ix]->release = NULL;
    sx_cover("schema child");
  }
  s.release(&s);
  SX_ASSERT(s.release == NULL, "schema marked as released");
  if (sk.release) {
    SX_ASSERT(sk.format[0] != 0 && sk.name[0] != 0, "child schema lives on");
    sk.release(&sk);
    SX_ASSERT(sk.release == NULL, "child schema marked as released");
  }
  struct GeoArrowBuilder b;
  if (GeoArrowBuilderInitFromType(&b, (enum GeoArrowType)t.id) == 0) {
    struct ArrowArray a, ak;
    ak.release = NULL;
    double ord[8] = {1, 2, 3, 4, 5, 6, 7, 8};
    struct GeoArrowCoordView cv;
    memset(&cv, 0, sizeof cv);
    int nd = t.gt ? t_nd(t.dim) : 0;
    cv.n_coords = 2;
    cv.n_values = nd;
    cv.coords_stride = nd;
    for (int j = 0; j < nd; j++) cv.values[j] = ord + j;
    if (t.gt && t.gt != 990) SX_ASSERT(GeoArrowBuilderCoordsAppend(&b, &cv, (enum GeoArrowDimensions)t.dim, 0, 2) == 0, "coordinates");
    SX_ASSERT(GeoArrowBuilderFinish(&b, &a, &err) == 0, "array");
    GeoArrowBuilderReset(&b);
    struct ArrowArray* q = &a;
    for (int l = 0; l < lv && q->n_children == 1; l++) q = q->children[0];
    if (ix < q->n_children) {
      ak = *q->children[ix];
      q->children[ix]->release = NULL;
      sx_cover("array child");
    }
    a.release(&a);
    SX_ASSERT(a.release == NULL, "array marked as released");
    if (ak.release) {
      if (t.gt != 990 && t.gt && ak.n_children == 0) SX_ASSERT(*(const double*)ak.buffers[1] == (t.coord == 1 ? ix + 1 : 1), "child array lives on");
      ak.release(&ak);
      SX_ASSERT(ak.release == NULL, "child array marked as released");
    }
  }
  SX_ASSERT(sx_live_allocs() == live0, "no allocation left");
  return 0;
}
#endif
