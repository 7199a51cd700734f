// The C++ reader, writer and builder.  MODE 0: reader histories (ownership, content)  1: builder buffers  2: writer settings
#include <cstring>
#include <string>
#include <utility>
#include "geoarrow/geoarrow.h"
#include "geoarrow/hpp/array_reader.hpp"
#include "geoarrow/hpp/array_writer.hpp"
#include "types.h"
#include "ev.h"
#ifndef MODE
#define MODE 0
#endif
#ifndef TY
#define TY 1
#endif
#ifndef STEPS
#define STEPS 3
#endif
using geoarrow::GeometryDataType;
static struct GeoArrowError err;
// how a reader, writer or builder is made
template <typename O>
static O* make(int id, int how) {
  if (how == 0) return new O((enum GeoArrowType)id);
  if (how == 1) return new O(GeometryDataType::Make((enum GeoArrowType)id));
  struct ArrowSchema s;
  SX_ASSERT((how == 3 ? GeoArrowSchemaInit : GeoArrowSchemaInitExtension)(&s, (enum GeoArrowType)id) == 0, "schema");
  O* o = nullptr;
  try { o = new O(&s); } catch (const geoarrow::ErrnoException& e) { SX_ASSERT(e.code != 0 && e.what()[0] != 0, "a code and a message"); }
  ArrowSchemaRelease(&s);
  SX_ASSERT((o != nullptr) == (how == 2), "made from exactly the extension schema");
  return o;
}
#if MODE == 0
struct held { int released, len, bad, owned; uint64_t xy[4]; struct ArrowArray child[2]; struct ArrowArray* kids[2]; const void *b0[3], *b1[2][2]; void* heap[3]; struct ArrowArray a; };
static void rel_child(struct ArrowArray* a) { a->release = NULL; }
static void rel(struct ArrowArray* a) {
  struct held* h = (struct held*)a->private_data;
  h->released++;
  for (int i = 0; i < 3; i++) { free(h->heap[i]); h->heap[i] = NULL; }
  a->release = NULL;
}
// 0 good, 1 of the wrong layout, 2 (text) with a malformed element
static void fill(struct held* h, int kind, int k) {
  memset(h, 0, sizeof *h);
  h->bad = kind;
  h->len = 1 + k % 2;
  struct ArrowArray* a = &h->a;
  a->length = h->len;
  a->buffers = h->b0;
  a->release = rel;
  a->private_data = h;
#if TY == 1
  a->n_buffers = 1;
  a->n_children = kind == 1 ? 1 : 2;
  a->children = h->kids;
  for (int j = 0; j < 2; j++) {
    h->kids[j] = &h->child[j];
    double* d = (double*)malloc((size_t)h->len * 8);
    sx_make_symbolic(d, (uint64_t)h->len * 8, "ord");
    for (int i = 0; i < h->len; i++) memcpy(&h->xy[2 * i + j], &d[i], 8);
    h->heap[j] = d;
    h->child[j].length = h->len;
    h->child[j].n_buffers = 2;
    h->child[j].buffers = h->b1[j];
    h->b1[j][1] = d;
    h->child[j].release = rel_child;
  }
#else
  static const char* const txt[] = {"POINT (1 2)", "POINT (3 45)POINT (6 7)", "POINT (1 "};
  const char* s = kind == 2 ? txt[2] : txt[k % 2];
  a->n_buffers = kind == 1 ? 1 : 3;
  int32_t* o = (int32_t*)malloc(12);
  o[0] = 0;
  o[1] = h->len == 2 ? 12 : (int32_t)strlen(s);
  o[2] = (int32_t)strlen(s);
  if (kind == 2) { o[1] = o[2]; h->len = 1; a->length = 1; }
  char* c = (char*)malloc(strlen(s));
  memcpy(c, s, strlen(s));
  h->heap[0] = o; h->heap[1] = c;
  h->b0[1] = o; h->b0[2] = c;
  static const double v[2][4] = {{1, 2}, {3, 45, 6, 7}};
  memcpy(h->xy, v[k % 2], 32);
#endif
}
static void run() {
  static struct held h[STEPS];
  static struct evlist want, got;
  struct GeoArrowVisitor v;
  ev_visitor(&got, &v, NULL);
  int how = sx_choose(0, 3, "how");
  geoarrow::ArrayReader* r = make<geoarrow::ArrayReader>(TY, how);
  if (!r) { sx_cover("no reader"); return; }
  struct held* cur = NULL;
  int n = sx_choose(1, STEPS, "steps"), nset = 0;
  for (int i = 0; i < n; i++) {
    int op = sx_choose(0, cur ? 3 : 1, "op");
    if (op < 2) {
      struct held* x = &h[nset];
      fill(x, sx_choose(0, TY == 1 ? 1 : 2, "kind"), nset);
      nset++;
      x->owned = op == 0;
      int ok = 0;
      try {
        if (op == 0) r->SetArray(&x->a); else r->SetArrayNonOwning(&x->a);
        ok = 1;
      } catch (const geoarrow::ErrnoException& e) {
        SX_ASSERT(e.code != 0 && e.what()[0] != 0, "a code and a message");
        sx_cover("array refused");
      }
      SX_ASSERT(ok == (x->bad != 1), "arrays of the type are accepted");
      SX_ASSERT(op == 0 ? x->a.release == NULL : x->a.release == rel, "moved exactly when owned");
      if (ok) SX_ASSERT(x->released == 0, "not released while in use");
      cur = ok ? x : NULL;
      if (nset > 1) sx_cover("second array");
    } else if (op == 2) {
      int off = sx_choose(0, cur->len, "offset");
      int len = sx_choose(0, cur->len - off, "length");
      want.n = want.overflow = got.n = got.overflow = 0;
      for (int e = off; e < off + len; e++) {
        ev_add(&want, EV_FS);
        ev_gs(&want, 1, 1);
        ev_c(&want, 2, &cur->xy[2 * e]);
        ev_add(&want, EV_GE);
        ev_add(&want, EV_FE);
      }
      err.message[0] = 0;
      int rc = r->Visit(&v, off, len, &err);
      if (cur->bad == 2 && len > 0) {
        SX_ASSERT(rc != 0 && err.message[0] != 0, "malformed content is an error with a message");
        sx_cover("malformed");
      } else {
        SX_ASSERT(rc == 0, "visited");
        ev_assert_same(&got, &want, "visited");
        sx_cover("visited");
      }
    } else {
      const struct GeoArrowArrayView* av = r->View().array_view();
      SX_ASSERT(av != NULL && (int)av->schema_view.type == TY && av->length[0] == cur->len, "the view is of the current array");
#if TY == 1
      for (int e = 0; e < cur->len; e++)
        for (int j = 0; j < 2; j++) {
          double d = GEOARROW_COORD_VIEW_VALUE(&av->coords, e, j);
          SX_ASSERT(sx_bytes_eq(&d, &cur->xy[2 * e + j], 8), "coordinates");
        }
#else
      SX_ASSERT(av->data == cur->b0[2] && av->offsets[0] == cur->b0[1], "buffers");
#endif
      sx_cover("view");
    }
  }
  delete r;
  for (int i = 0; i < nset; i++) {
    SX_ASSERT(h[i].released == h[i].owned, "every array given away is released once, the others are not");
    if (!h[i].owned) h[i].a.release(&h[i].a);
  }
}
#elif MODE == 1
static int made, dropped;
template <typename E>
struct Box {  // a movable owner of heap memory
  using value_type = E;
  E* p;
  size_t n;
  explicit Box(size_t n) : p((E*)malloc(n * sizeof(E) + 1)), n(n) { made++; }
  Box(Box&& o) : p(o.p), n(o.n) { o.p = nullptr; o.n = 0; }
  Box(const Box&) = delete;
  ~Box() { if (p) { free(p); dropped++; } }
  const E* data() const { return p; }
  size_t size() const { return n; }
};
template <typename E>
static int put(geoarrow::ArrayBuilder* b, int i, int n, const E* v, int offsets) {
  int how = sx_choose(0, 4 + offsets, "how"), ok = 1, done = 0;
  int at = i;
  Box<E> x((size_t)n);
  memcpy(x.p, v, (size_t)n * sizeof(E));
  try {
    switch (how) {
      case 0: b->SetBufferWrapped(at, std::move(x)); break;
      case 1: {
        struct GeoArrowBufferView bv = {(const uint8_t*)x.p, (int64_t)((size_t)n * sizeof(E))};
        b->SetBufferWrapped(at, std::move(x), bv);
        break;
      }
      case 2: b->AppendToBuffer(at, x); break;
      case 3: {  // no such buffer
        ok = 0;
        at = sx_choose(0, 1, "which") ? -1 : 4;
        b->SetBufferWrapped(at, std::move(x));
        break;
      }
      case 4: {
        ok = 0;
        at = sx_choose(0, 1, "which") ? -1 : 4;
        struct GeoArrowBufferView bv = {(const uint8_t*)x.p, (int64_t)((size_t)n * sizeof(E))};
        b->SetBufferWrapped(at, std::move(x), bv);
        break;
      }
      default: {
        // offsets are appended as they are
        Box<int32_t> y((size_t)n);
        memcpy(y.p, v, (size_t)n * 4);
        b->AppendToOffsetBuffer(0, y);
        break;
      }
    }
    done = 1;
  } catch (const geoarrow::ErrnoException& e) {
    SX_ASSERT(e.code != 0 && e.what()[0] != 0, "a code and a message");
    sx_cover("buffer refused");
  }
  SX_ASSERT(done == ok, "exactly the buffers of the type");
  return ok;
}
static void run() {
  made = dropped = 0;
  {
    int how = sx_choose(0, 3, "how");
    geoarrow::ArrayBuilder* b = make<geoarrow::ArrayBuilder>(2, how);
    if (!b) { sx_cover("no builder"); return; }
    int nf = sx_choose(0, 2, "features");
    int32_t off[3] = {0, 0, 0};
    for (int i = 0; i < nf; i++) off[i + 1] = off[i] + sx_choose(0, 2, "size");
    int nc = off[nf];
    double xy[2][4];
    sx_make_symbolic(xy, sizeof xy, "xy");
    int ok = put<int32_t>(b, 1, nf + 1, off, 1);
    if (ok && sx_choose(0, 1, "coords")) {
      struct GeoArrowCoordView cv;
      memset(&cv, 0, sizeof cv);
      cv.n_coords = nc; cv.n_values = 2; cv.coords_stride = 1;
      cv.values[0] = xy[0]; cv.values[1] = xy[1];
      b->AppendCoords(&cv, GEOARROW_DIMENSIONS_XY, 0, nc);
    } else {
      if (ok) ok = put<double>(b, 2, nc, xy[0], 0);
      if (ok) ok = put<double>(b, 3, nc, xy[1], 0);
    }
    if (ok && sx_choose(0, 1, "finish")) {
      struct ArrowArray a;
      memset(&a, 0, sizeof a);
      b->Finish(&a);
      SX_ASSERT(a.length == nf && a.n_children == 1 && a.children[0]->length == nc, "lengths");
      for (int i = 0; i <= nf; i++) SX_ASSERT(((const int32_t*)a.buffers[1])[i] == off[i], "offsets");
      for (int j = 0; j < 2; j++)
        for (int i = 0; i < nc; i++) SX_ASSERT(sx_bytes_eq((const double*)a.children[0]->children[j]->buffers[1] + i, &xy[j][i], 8), "ordinates");
      if (sx_choose(0, 1, "order")) { delete b; a.release(&a); } else { a.release(&a); delete b; }
      sx_cover("built");
    } else {
      delete b;
      sx_cover("abandoned");
    }
  }
  SX_ASSERT(made == dropped, "every wrapped object is destroyed once");
}
#else
struct cset { int precision, flat; };
static int write_one(struct GeoArrowVisitor* v, const double* xy, int gt) {
  struct GeoArrowCoordView cv;
  memset(&cv, 0, sizeof cv);
  cv.n_coords = gt == 1 ? 1 : 2; cv.n_values = 2; cv.coords_stride = 2;
  cv.values[0] = xy; cv.values[1] = xy + 1;
  int rc = v->feat_start(v) || v->geom_start(v, (enum GeoArrowGeometryType)gt, GEOARROW_DIMENSIONS_XY);
  if (rc) return rc;
  if (gt == 4) {
    for (int i = 0; i < 2 && !rc; i++) {
      cv.n_coords = 1; cv.values[0] = xy + 2 * i; cv.values[1] = xy + 2 * i + 1;
      rc = v->geom_start(v, GEOARROW_GEOMETRY_TYPE_POINT, GEOARROW_DIMENSIONS_XY) || v->coords(v, &cv) || v->geom_end(v);
    }
  } else {
    rc = v->coords(v, &cv);
  }
  return rc || v->geom_end(v) || v->feat_end(v);
}
static void same_array(const struct ArrowArray* a, const struct ArrowArray* b) {
  SX_ASSERT(a->length == b->length && a->n_buffers == b->n_buffers && a->n_children == b->n_children && a->offset == b->offset && a->null_count == b->null_count, "the same array");
#if TY > 100000
  const int32_t* o = (const int32_t*)a->buffers[1];
  const int32_t* p = (const int32_t*)b->buffers[1];
  for (int i = 0; i <= a->length; i++) SX_ASSERT(o[i] == p[i], "offsets");
  SX_ASSERT(sx_bytes_eq(a->buffers[2], b->buffers[2], (uint64_t)o[a->length]), "content");
#else
  for (int j = 0; j < a->n_children; j++) SX_ASSERT(sx_bytes_eq(a->children[j]->buffers[1], b->children[j]->buffers[1], (uint64_t)a->length * 8), "content");
#endif
}
static void run() {
  static const double vals[4] = {1.25, -0.0625, 30, 123456.789};
  int how = sx_choose(0, 3, "how");
  geoarrow::ArrayWriter* w = make<geoarrow::ArrayWriter>(TY, how);
  if (!w) { sx_cover("no writer"); return; }
  struct GeoArrowArrayWriter c;
  struct GeoArrowVisitor cv;
  SX_ASSERT(GeoArrowArrayWriterInitFromType(&c, (enum GeoArrowType)TY) == 0, "reference");
  struct cset s = {16, 1};  // the defaults of the text writer
  // settings of text writers: the last of each kind counts
  int nset = sx_choose(0, 2, "settings");
  for (int i = 0; i < nset; i++) {
    int which = sx_choose(0, 1, "setting"), ok = 0;
    try {
      if (which) {
        int f = sx_choose(0, 1, "flat");
        if (TY == 100003) s.flat = f;
        w->SetFlatMultipoint(f != 0);
      } else {
        int p = sx_choose(0, 3, "precision");
        if (TY == 100003) s.precision = p;
        w->SetPrecision(p);
      }
      ok = 1;
    } catch (const geoarrow::ErrnoException& e) {
      sx_cover("setting refused");
    }
    SX_ASSERT(ok == (TY == 100003), "text writers have settings");
  }
#if TY == 100003
  SX_ASSERT(GeoArrowArrayWriterSetPrecision(&c, s.precision) == 0 && GeoArrowArrayWriterSetFlatMultipoint(&c, s.flat) == 0, "reference settings");
#endif
  SX_ASSERT(GeoArrowArrayWriterInitVisitor(&c, &cv) == 0, "reference");
  cv.error = &err;
  int rounds = sx_choose(0, 2, "arrays");
  for (int k = 0; k < rounds; k++) {
    struct GeoArrowVisitor* v = w->visitor();
    SX_ASSERT(v == w->visitor(), "one visitor");
    v->error = &err;
    int nf = sx_choose(0, 2, "features");
    for (int i = 0; i < nf; i++) {
      int gt = TY == 1 ? 1 : sx_choose(0, 1, "gt") ? 4 : 2;
      SX_ASSERT(write_one(v, vals, gt) == 0 && write_one(&cv, vals, gt) == 0, "written");
    }
    struct ArrowArray a, b;
    memset(&a, 0, sizeof a);
    memset(&b, 0, sizeof b);
    w->Finish(&a);
    SX_ASSERT(GeoArrowArrayWriterFinish(&c, &b, &err) == 0, "reference");
    SX_ASSERT(a.length == nf, "length");
    same_array(&a, &b);
    a.release(&a);
    b.release(&b);
    if (k == 1) sx_cover("second array");
    sx_cover("written");
  }
  delete w;
  GeoArrowArrayWriterReset(&c);
}
#endif
extern "C" int sx_main(void) {
  int live0 = sx_live_allocs();
  run();
  sx_observe(1);
  SX_ASSERT(sx_live_allocs() == live0, "no allocation left");
  return 0;
}
