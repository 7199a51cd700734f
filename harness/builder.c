// Any sequence of builder calls for a type: what is appended is what the finished array holds, batch after batch.
#include "types.h"
#include "aref.h"
#ifndef T
#define T 1
#endif
#ifndef STEPS
#define STEPS 3
#endif
#ifndef BATCHES
#define BATCHES 1
#endif
#ifndef HOWLO
#define HOWLO 0
#define HOWHI 2
#endif
#ifndef MAXN
#define MAXN 2
#endif
#define MB 9
#ifdef MANYN  // elements are appended by 0, 1 or that many, the first of them arbitrary; coordinates likewise
#define MCAP (MANYN * 64 + 2048)
static int count(const char* what) { int c = sx_choose(0, 2, what); return c < 2 ? c : MANYN; }
#define SOME_C {0, 1, 65, MANYN}
#define SOME_R {0, 1, 64, 1000}
#define CCAP MANYN
#else
#define MCAP 1024
#define count(what) sx_choose(0, MAXN, what)
#define SOME_C {0, 1, 2, 7}
#define SOME_R {0, 1, 5, 17}
#define CCAP 63
#endif
static struct GeoArrowBuilder bd;
static struct GeoArrowError err;
static uint8_t m[MB][MCAP];
static int msize[MB], nbuf, noff, ncoordbuf, nd, iscoords;
static struct tdesc t;
// owned memory
static struct owned { uint8_t* p; int64_t n; int freed; } own[2 * MB];
static int nown;
static void own_free(uint8_t* ptr, int64_t size, void* priv) {
  struct owned* o = (struct owned*)priv;
  SX_ASSERT(o->freed == 0, "an owned buffer is freed once");
  SX_ASSERT(o->p == ptr && o->n == size, "freed with the pointer and size it was given");
  o->freed++;
  free(ptr);
}
static int width(int i) { return i == 0 ? 1 : i <= noff ? (t.id == 100002 || t.id == 100004 ? 8 : 4) : t.gt ? 8 : 1; }
static void value(int i, uint8_t* p) {  // one element of buffer i
  int w = width(i);
  if (i > 0 && i <= noff) {
    int64_t v = sx_choose(0, MAXN, "offset");
    memcpy(p, &v, (size_t)w);
  } else sx_make_symbolic(p, (uint64_t)w, "data");
}
static void agree(void) {
  for (int i = 0; i < nbuf; i++) {
    const struct GeoArrowWritableBufferView* b = &bd.view.buffers[i];
    if (!(iscoords && i > noff)) SX_ASSERT(b->size_bytes == msize[i], "sizes are those appended");
    SX_ASSERT(b->capacity_bytes >= b->size_bytes, "capacity covers the size");
    if (b->capacity_bytes) SX_ASSERT(sx_accessible(b->data.data, (uint64_t)b->capacity_bytes), "the capacity is there");
    if (msize[i] && !(iscoords && i > noff)) SX_ASSERT(sx_bytes_eq(b->data.data, m[i], (uint64_t)msize[i]), "earlier values are kept");
  }
  if (iscoords) {
    int n = msize[noff + 1] / (t.coord == 1 ? 8 : 8 * nd);
    SX_ASSERT(bd.view.coords.size_coords == n, "number of coordinates");
    for (int k = 0; k < n; k++)
      for (int j = 0; j < nd; j++) {
        const uint8_t* want = t.coord == 1 ? m[noff + 1 + j] + 8 * k : m[noff + 1] + 8 * (k * nd + j);
        SX_ASSERT(sx_bytes_eq(bd.view.coords.values[j] + (t.coord == 1 ? k : k * nd), want, 8), "earlier coordinates are kept");
      }
  }
}
static void put(int i, const uint8_t* p, int n) {
  if (n) memcpy(m[i] + msize[i], p, (size_t)n);
  msize[i] += n;
}
static void step(void) {
  static uint8_t tmp[(CCAP + 1) * 8];
  int op = sx_choose(0, iscoords ? 4 : noff ? 2 : 1, "op");
  int i = -1, n = 0, rc = 0;
  if (op < 2) i = sx_choose(0, iscoords ? noff : nbuf - 1, "buffer");
  if (op == 2) i = noff ? sx_choose(1, noff, "offsets") : -1;
  if (op == 2 && i < 0) return;
  if (op == 1) {
    static const int some[] = {0, 1, 3, 40};
    n = some[sx_choose(0, 3, "reserve")] * width(i);
    int64_t before = bd.view.buffers[i].size_bytes;
    if (i > 0 && i <= noff && width(i) == 4) rc = GeoArrowBuilderOffsetReserve(&bd, i - 1, n / 4);
    else rc = GeoArrowBuilderReserveBuffer(&bd, i, n);
    SX_ASSERT(rc == 0, "reserving succeeds");
    SX_ASSERT(bd.view.buffers[i].size_bytes == before && bd.view.buffers[i].capacity_bytes >= before + n, "what was reserved is there");
  } else if (op == 0) {
    n = count("elements");
    for (int k = 0; k < n; k++)
      if (k < 2) value(i, tmp + k * width(i));
      else memset(tmp + k * width(i), k & 1, (size_t)width(i));
    struct GeoArrowBufferView v = {tmp, n * width(i)};
    rc = GeoArrowBuilderAppendBuffer(&bd, i, v);
    SX_ASSERT(rc == 0, "appending succeeds");
    put(i, tmp, n * width(i));
  } else if (op == 2) {
    n = count("elements");
    if (width(i) == 4) {
      for (int k = 0; k < n; k++)
        if (k < 2) value(i, tmp + k * 4);
        else memset(tmp + k * 4, k & 1, 4);
      rc = GeoArrowBuilderOffsetAppend(&bd, i - 1, (int32_t*)tmp, n);
      SX_ASSERT(rc == 0, "appending offsets succeeds");
      put(i, tmp, n * 4);
    }
  } else if (op == 3) {
    static const int some[] = SOME_R;
    n = some[sx_choose(0, 3, "reserve")];
    rc = GeoArrowBuilderCoordsReserve(&bd, n);
    SX_ASSERT(rc == 0, "reserving succeeds");
    SX_ASSERT(bd.view.coords.capacity_coords >= bd.view.coords.size_coords + n, "room for the coordinates");
  } else {
    static const int some[] = SOME_C;
    n = some[sx_choose(0, 3, "coords")];
    static double c[(CCAP + 1) * 4];
    for (int k = 0; k < n * nd; k++) {
      if (k < 4) { sx_make_symbolic(&c[k], 8, "ord"); }
      else c[k] = k + 0.5;
    }
    struct GeoArrowCoordView cv;
    memset(&cv, 0, sizeof cv);
    cv.n_coords = n;
    cv.n_values = nd;
    cv.coords_stride = nd;
    for (int j = 0; j < nd; j++) cv.values[j] = c + j;
    rc = GeoArrowBuilderCoordsAppend(&bd, &cv, (enum GeoArrowDimensions)t.dim, 0, n);
    SX_ASSERT(rc == 0, "appending coordinates succeeds");
    for (int k = 0; k < n; k++)
      for (int j = 0; j < nd; j++) put(t.coord == 1 ? noff + 1 + j : noff + 1, (const uint8_t*)&c[k * nd + j], 8);
    sx_cover("coords");
  }
  agree();
}
static void own_all(void) {
  for (int i = 0; i < nbuf; i++) {
    int n = sx_choose(0, MAXN + (i <= noff ? 1 : 0), "elements") * width(i);
    if (i == 0 && n > 1) continue;
    uint8_t* p = (uint8_t*)malloc((size_t)(n ? n : 1));
    for (int k = 0; k < n; k += width(i)) value(i, p + k);
    struct owned* o = &own[nown++];
    o->p = p;
    o->n = n;
    o->freed = 0;
    struct GeoArrowBufferView v = {p, n};
    SX_ASSERT(GeoArrowBuilderSetOwnedBuffer(&bd, i, v, &own_free, o) == 0, "the buffer is taken");
    msize[i] = 0;
    put(i, p, n);
  }
  struct GeoArrowBufferView v = {NULL, 0};
  SX_ASSERT(GeoArrowBuilderSetOwnedBuffer(&bd, nbuf, v, &own_free, NULL) == EINVAL && GeoArrowBuilderSetOwnedBuffer(&bd, -1, v, &own_free, NULL) == EINVAL, "no such buffer");
  agree();
}
// a valid array, its buffers appended in two pieces each
static void guided(void) {
  static uint8_t all[MB][MCAP];
  int size[MB], cut[MB];
#ifdef MANYN
#define PARTS(k) ((k) == n / 2 ? 20 : (k) % 3)
#define GSYM(p, len, what) do { for (int q_ = 0; q_ < (len); q_++) (p)[q_] = (uint8_t)(q_ * 37); if ((len) > 8) sx_make_symbolic((p) + (len) / 16 * 8, 8, what); } while (0)
  int64_t n = MANYN;
#else
#define PARTS(k) sx_choose(0, MAXN, "parts")
#define GSYM(p, len, what) sx_make_symbolic(p, (uint64_t)(len), what)
  int64_t n = sx_choose(0, MAXN, "length");
#endif
  int valid = sx_choose(0, 1, "validity");
  size[0] = valid ? (int)(n + 7) / 8 : 0;
  if (size[0]) GSYM(all[0], size[0], "validity bits");
  for (int l = 0; l < noff; l++) {
    int64_t o = 0;
    size[1 + l] = 0;
    for (int64_t k = 0; k <= n; k++) {
      if (k) o += PARTS(k);
      memcpy(all[1 + l] + size[1 + l], &o, (size_t)width(1 + l));
      size[1 + l] += width(1 + l);
    }
    n = o;
  }
  for (int j = 0; j < ncoordbuf; j++) {
    size[noff + 1 + j] = (int)n * width(noff + 1) * (t.coord == 2 ? nd : 1);
    if (size[noff + 1 + j]) GSYM(all[noff + 1 + j], size[noff + 1 + j], "values");
  }
  int where = sx_choose(0, 2, "cut");
  for (int i = 0; i < nbuf; i++) {
    int e = size[i] / width(i);
    cut[i] = (where == 0 ? 0 : where == 1 ? e / 2 : e > 0 ? e - 1 : 0) * width(i);
  }
  for (int piece = 0; piece < 2; piece++)
    for (int i = 0; i < nbuf; i++) {
      int lo = piece ? cut[i] : 0, hi = piece ? size[i] : cut[i];
      struct GeoArrowBufferView v = {all[i] + lo, hi - lo};
      SX_ASSERT(GeoArrowBuilderAppendBuffer(&bd, i, v) == 0, "appending succeeds");
      put(i, all[i] + lo, hi - lo);
      agree();
    }
}
static int64_t off_at(int i, int k) {
  if (width(i) == 8) { int64_t v; memcpy(&v, m[i] + 8 * k, 8); return v; }
  int32_t v;
  memcpy(&v, m[i] + 4 * k, 4);
  return v;
}
static int64_t level_len(int l) {  // elements of level l according to the data
  if (l < noff) return msize[1 + l] == 0 ? 0 : msize[1 + l] / width(1 + l) - 1;
  if (t.gt == 0) return msize[noff + 1];
  return msize[noff + 1] / (t.coord == 1 ? 8 : 8 * nd);
}
static int consistent(void) {
  if (t.gt) {
    if (t.coord == 1) { for (int j = 1; j < ncoordbuf; j++) if (msize[noff + 1 + j] != msize[noff + 1]) return 0; }
    else if (msize[noff + 1] % (8 * nd)) return 0;
  }
  for (int l = 0; l < noff; l++) {
    int64_t n = level_len(l);
    if (msize[1 + l] == 0) continue;
    for (int k = 0; k < n; k++) if (off_at(1 + l, k + 1) < off_at(1 + l, k)) return 0;
    if (off_at(1 + l, 0) != 0 || off_at(1 + l, (int)n) != level_len(l + 1)) return 0;
  }
  return msize[0] == 0 || msize[0] >= (level_len(0) + 7) / 8;
}
static void same(const struct ArrowArray* a, int i, int b) {
  if (msize[i]) SX_ASSERT(a->buffers[b] != NULL && sx_bytes_eq(a->buffers[b], m[i], (uint64_t)msize[i]), "the buffer is the data appended");
}
static void check(struct ArrowArray* a) {
  same(a, 0, 0);
  SX_ASSERT((a->buffers[0] == NULL) == (msize[0] == 0) || bd.view.buffers[0].data.data == NULL, "no validity unless given");
  SX_ASSERT(a->null_count == (a->buffers[0] ? -1 : 0), "null count unknown with a bitmap, zero without");
  struct ArrowArray* x = a;
  for (int l = 0; l <= noff; l++) {
    SX_ASSERT(x->length == level_len(l) || t.gt == 0, "length of each level");
    SX_ASSERT(x->offset == 0, "no offset");
    if (l > 0 && t.gt) SX_ASSERT(x->buffers[0] == NULL && x->null_count == 0, "inner arrays have no nulls");
    if (l == noff) break;
    SX_ASSERT(x->n_buffers == (t.gt ? 2 : 3), "buffers of a list");
    same(x, 1 + l, 1);
    if (t.gt == 0) {
      SX_ASSERT(x->length == level_len(0), "number of elements");
      same(x, 2, 2);
      return;
    }
    x = x->children[0];
  }
  SX_ASSERT(x->n_buffers == 1 && x->n_children == ncoordbuf, "coordinate array");
  for (int j = 0; j < ncoordbuf; j++) {
    SX_ASSERT(x->children[j]->length == msize[noff + 1 + j] / 8 && x->children[j]->n_buffers == 2 && x->children[j]->buffers[0] == NULL, "ordinate array");
    same(x->children[j], noff + 1 + j, 1);
  }
}
int sx_main(void) {
  int live0 = sx_live_allocs();
  nown = 0;
  t = tdesc_of(0);
  for (int k = 0; k < NTYPES; k++) if (tdesc_of(k).id == T) t = tdesc_of(k);
  if (GeoArrowBuilderInitFromType(&bd, (enum GeoArrowType)T)) { SX_ASSERT(0, "harness: type"); return 1; }
  noff = t.gt ? (t.gt == 990 ? 0 : t_depth(t.gt)) : 1;
  nd = t.gt ? t_nd(t.dim) : 0;
  ncoordbuf = t.gt == 990 ? 2 * nd : t.gt == 0 ? 1 : t.coord == 1 ? nd : 1;
  nbuf = 1 + noff + ncoordbuf;
  SX_ASSERT(bd.view.n_buffers == nbuf && bd.view.n_offsets == noff, "buffers of the type");
  int hown = sx_choose(HOWLO, t.gt && t.gt != 990 ? HOWHI : HOWHI == 2 ? 1 : HOWHI, "how");  // 0 raw, 1 owned, 2 coordinates, 3 guided
  iscoords = hown == 2;
  for (int b = 0; b < BATCHES; b++) {
    memset(msize, 0, sizeof msize);
    agree();
    if (hown == 1) own_all();
    else if (hown == 3) guided();
    else for (int k = 0; k < STEPS; k++) step();
    struct ArrowArray a;
    a.release = NULL;
    int ok = consistent();
    int rc = GeoArrowBuilderFinish(&bd, &a, &err);
    if (ok) SX_ASSERT(rc == 0, "consistent buffers are accepted");
    if (rc == 0) {
      check(&a);
      if (ok) { if (level_len(0) > 0) sx_cover("array"); else sx_cover("empty array"); }
      sx_observe((uint64_t)a.length);
      a.release(&a);
      for (int k = 0; k < nown; k++) SX_ASSERT(own[k].freed == 1, "owned buffers are freed with the array");
    } else {
      SX_ASSERT(a.release == NULL, "no array after an error");
      sx_cover("refused");
      break;
    }
  }
  GeoArrowBuilderReset(&bd);
  for (int k = 0; k < nown; k++) SX_ASSERT(own[k].freed == 1, "owned buffers are freed");
  SX_ASSERT(sx_live_allocs() <= live0, "no leak");
  return 0;
}
