// Attaching arrays: the array of any type, one node of it with any buffer and child counts, to a view of type T.
#include "types.h"
#include "aref.h"
#ifndef MODE
#define MODE 0
#endif
#ifndef TLO
#define TLO 0
#define THI (NTYPES - 1)
#endif
static struct GeoArrowError err;
static void* blocks[400];
static int nblocks, at, pick, nbuf, nkid, seen;
static void* blk(size_t n) { return blocks[nblocks++] = malloc(n ? n : 1); }
// n features with one part per level; node number pick gets nbuf buffers and nkid children
static struct ArrowArray* node(int64_t len, int nb, int nk) {
  struct ArrowArray* a = (struct ArrowArray*)blk(sizeof *a);
  memset(a, 0, sizeof *a);
  a->length = len;
  if (at++ == pick) { nb = nbuf; nk = nkid; seen = 1; }
  a->n_buffers = nb;
  a->n_children = nk;
  a->buffers = (const void**)blk((size_t)nb * sizeof(void*));
  a->children = (struct ArrowArray**)blk((size_t)nk * sizeof(void*));
  for (int i = 0; i < nb; i++) a->buffers[i] = NULL;
  return a;
}
static struct ArrowArray* leaf(int64_t len, int w) {
  struct ArrowArray* a = node(len * w, 2, 0);
  double* d = (double*)blk((size_t)(len * w) * 8);
  for (int i = 0; i < len * w; i++) d[i] = i;
  if (a->n_buffers > 1) a->buffers[1] = d;
  for (int i = 0; i < a->n_children; i++) { a->children[i] = (struct ArrowArray*)blk(sizeof(struct ArrowArray)); memset(a->children[i], 0, sizeof(struct ArrowArray)); }
  return a;
}
static struct ArrowArray* make(struct tdesc t, int depth, int64_t n) {
  if (t.gt == 0) {
    int view = t.id == 100005 || t.id == 100006;
    struct ArrowArray* a = node(n, view ? 4 : 3, 0);
    for (int i = 1; i < a->n_buffers; i++) { a->buffers[i] = blk(64); memset((void*)a->buffers[i], 0, 64); }
    for (int i = 0; i < a->n_children; i++) a->children[i] = leaf(n, 1);
    return a;
  }
  int nd = t_nd(t.dim);
  struct ArrowArray* a;
  if (depth == 0) {
    a = node(n, 1, t.gt == 990 ? 2 * nd : t.coord == 1 ? nd : 1);
    for (int i = 0; i < a->n_children; i++) a->children[i] = leaf(n, t.coord == 1 ? 1 : nd);
    return a;
  }
  a = node(n, 2, 1);
  int32_t* o = (int32_t*)blk((size_t)(n + 1) * 4);
  for (int i = 0; i <= n; i++) o[i] = i;
  if (a->n_buffers > 1) a->buffers[1] = o;
  for (int i = 0; i < a->n_children; i++) a->children[i] = i == 0 ? make(t, depth - 1, n) : leaf(n, 1);
  return a;
}
static int fits(const struct ArrowArray* a, struct tdesc t, int depth) {
  if (t.gt == 0) return a->n_buffers == 3 && a->n_children == 0;
  int nd = t_nd(t.dim);
  if (depth > 0) return a->n_buffers == 2 && a->n_children == 1 && fits(a->children[0], t, depth - 1);
  if (a->n_buffers != 1 || a->n_children != (t.gt == 990 ? 2 * nd : t.coord == 1 ? nd : 1)) return 0;
  for (int i = 0; i < a->n_children; i++) if (a->children[i]->n_buffers != 2) return 0;
  return 1;
}
int sx_main(void) {
  int live0 = sx_live_allocs();
  nblocks = seen = at = 0;
  static struct evlist got, ref;
  struct GeoArrowVisitor v;
  struct tdesc t = tdesc_of(sx_choose(TLO, THI, "type"));
  int big = t.id == 100002 || t.id == 100004 || t.id == 100005 || t.id == 100006;
  int n = sx_choose(0, 1, "length");
  struct tdesc b = t;
#if MODE == 0
  b = tdesc_of(sx_choose(0, NTYPES - 1, "type of the array"));
  pick = -1;
#else
  pick = sx_choose(0, 11, "node");
  nbuf = sx_choose(0, 5, "buffers");
  nkid = sx_choose(0, 9, "children");
#endif
  struct ArrowArray* a = make(b, aref_depth(b.gt), n);
  sx_assume(MODE == 0 || seen);
  struct GeoArrowArrayView view;
  SX_ASSERT(GeoArrowArrayViewInitFromType(&view, (enum GeoArrowType)t.id) == 0, "view");
  err.message[0] = 0;
  int rc = GeoArrowArrayViewSetArray(&view, a, &err);
  int want = !big && fits(a, t, aref_depth(t.gt));
  // only storage of a struct or list can be told apart from strings
  SX_ASSERT(!(rc == 0 && !want), "an array of another structure is refused");
  SX_ASSERT(!(rc != 0 && want), "an array of the structure of the type is accepted");
  if (rc) {
    SX_ASSERT(err.message[0] != 0, "a refusal has a message");
    sx_cover("refused");
  } else sx_cover("accepted");
  if (big) {
    struct GeoArrowArrayReader r;
    SX_ASSERT(GeoArrowArrayReaderInitFromType(&r, (enum GeoArrowType)t.id) == 0, "reader");
    rc = GeoArrowArrayReaderSetArray(&r, a, &err);
    if (a->n_children || (t.id < 100005 ? a->n_buffers != 3 : a->n_buffers < 3)) SX_ASSERT(rc != 0, "an array of another structure is refused by the reader");
    GeoArrowArrayReaderReset(&r);
  }
  // the view can be used afterwards
  if (t.gt && t.gt != 990) {
    pick = -1;
    struct ArrowArray* good = make(t, aref_depth(t.gt), 1);
    SX_ASSERT(GeoArrowArrayViewSetArray(&view, good, &err) == 0, "then a matching array");
    ev_visitor(&got, &v, &err);
    ref.n = ref.overflow = 0;
    aref_feature(good, t.gt, t.dim, t.coord, 0, &ref);
    SX_ASSERT(GeoArrowArrayViewVisitNative(&view, 0, 1, &v) == 0, "is read");
    ev_assert_same(&ref, &got, "after");
  }
  for (int i = 0; i < nblocks; i++) free(blocks[i]);
  SX_ASSERT(sx_live_allocs() == live0, "no allocation left");
  return 0;
}
