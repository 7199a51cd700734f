// Reading arrays.  MODE 0: native arrays through GeoArrowArrayViewVisitNative or the array reader,
// MODE 1: WKB / WKT arrays of every storage through the array reader
#include <stdlib.h>
#include "types.h"
#include "aref.h"
#ifndef MODE
#define MODE 0
#endif
#ifndef T
#define T 2
#endif
#ifndef NF
#define NF 2
#endif
#include "arrays.h"
static struct GeoArrowError err;
// an array attached (and read) before the one of interest: other length, offset, bitmap; every part empty
static struct ArrowArray* earlier(int gt, int nd, int coord, int bitmap) {
  static const int64_t zeros[8], vsz = 16;
  static const uint8_t none[1];
  static const double ords[32];
  static const int32_t views[16] = {2, 0x4141, 0, 0, 2, 0x4141, 0, 0, 2, 0x4141, 0, 0, 2, 0x4141, 0, 0};
  static const int32_t o32[5] = {0, 2, 4, 6, 8};
  static const int64_t o64[5] = {0, 2, 4, 6, 8};
  static const void* vb[5];
  struct ArrowArray *root = NULL, *a = NULL, *p = NULL;
  if (!gt) {
    a = node(3, 1, 3, 0);
    a->buffers[1] = T == 100002 || T == 100004 ? (const void*)o64 : (const void*)o32;
    a->buffers[2] = "AAAAAAAA";
    if (T == 100005 || T == 100006) {
      vb[1] = views;
      vb[2] = "AAAAAAAAAAAAAAAA";
      vb[3] = &vsz;
      a->n_buffers = 4;
      a->buffers = vb;
    }
    a->buffers[0] = bitmap ? none : NULL;
    a->null_count = bitmap ? -1 : 0;
    return a;
  }
  int depth = aref_depth(gt);
  for (int l = 0; l <= depth; l++) {
    int n = l ? 0 : 3, off = l ? 0 : 1;
    a = l < depth ? node(n, off, 2, 1) : node(n, off, 1, gt == 990 ? 2 * nd : coord == 1 ? nd : 1);
    if (l < depth) a->buffers[1] = zeros;
    else for (int j = 0; j < a->n_children; j++) {
      a->children[j] = node(l ? 0 : coord == 1 ? 4 : 4 * nd, 0, 2, 0);
      a->children[j]->buffers[1] = ords;
    }
    if (l) p->children[0] = a; else root = a;
    p = a;
  }
  root->buffers[0] = bitmap ? none : NULL;
  root->null_count = bitmap ? -1 : 0;
  return root;
}
int sx_main(void) {
  int live0 = sx_live_allocs();
  static struct evlist ref, got;
  struct GeoArrowVisitor v;
  nnodes = nblocks = 0;
#ifdef UNI
  uni = sx_choose(0, 1, "inner offsets");
#endif
#ifdef LONGA
  int n = LONGA, off;
#else
  int n = sx_choose(0, NF, "features"), off;
#endif
#ifdef LEAN
  off = uni * OFF;
#else
  off = OFF ? sx_choose(0, 1, "offset") * OFF : 0;
#endif
  ref.n = ref.overflow = 0;
#if MODE == 0
  struct tdesc t = {0, 0, 0, 0};
  for (int k = 0; k < NTYPES; k++) if (tdesc_of(k).id == T) t = tdesc_of(k);
  int nd = t_nd(t.dim);
  struct ArrowArray* a;
  if (t.gt == 990) {
    a = node(n, off, 1, 2 * nd);
    for (int j = 0; j < 2 * nd; j++) a->children[j] = doubles(n + off, "bound");
  } else a = lists(aref_depth(t.gt), n, off, nd, t.coord, 0, n);
#else
  // elements: WKB or WKT of a few lengths
  static const char* const wkt[] = {"POINT (1 2)", "LINESTRING EMPTY", "POINT EMPTY", "POINT (10 20)"};
  uint8_t elem[4][32];
  int elen[4];
  int iswkt = T == 100003 || T == 100004 || T == 100006;
  struct ArrowArray* a = node(n, off, 3, 0);
  
#ifdef LONGA
  enum { DCAP = (LONGA + OFF) * 24 + 10, TCAP = LONGA + OFF };
#else
  enum { DCAP = 200, TCAP = 16 };
#endif
  uint8_t *data = (uint8_t*)blk(DCAP), *data2 = (uint8_t*)blk(DCAP + 10);  // views: elements alternate between two data buffers
  int isview = T == 100005 || T == 100006;
  int64_t pos = INOFF ? sx_choose(0, 1, "first offset") * 2 : 0;
  int total = n + off, which[TCAP];
  int32_t* o32 = (int32_t*)blk((size_t)(total + 1) * 4);
  int64_t* o64 = (int64_t*)blk((size_t)(total + 1) * 8);
  uint8_t* views = (uint8_t*)blk((size_t)total * 16);
  uint64_t ord[2];
  sx_make_symbolic(ord, 16, "ord");
  for (int i = 0; i < 4; i++) {
    if (iswkt) { elen[i] = (int)strlen(wkt[i]); memcpy(elem[i], wkt[i], elen[i]); }
    else {
      memset(elem[i], 0, 32);
      elem[i][0] = 1;
      if (i & 1) { elem[i][1] = (uint8_t)(i == 1 ? 2 : 7); elen[i] = 9; }  // empty linestring, empty collection
      else { elem[i][1] = 1; memcpy(elem[i] + 5, ord, 16); elen[i] = 21; }
    }
  }
  for (int i = 0; i < total; i++) {
    int w = which[i] = i < off ? i & 3 :
#ifdef LONGA
      i == n / 2 + 1 ? sx_choose(0, 3, "element") : i * 5 % 7 & 3;
#else
      sx_choose(0, 3, "element");
#endif
    o32[i] = (int32_t)pos;
    o64[i] = pos;
    memcpy(data + pos, elem[w], elen[w]);
    int32_t h[4] = {elen[w], 0, 0, 0};
    if (elen[w] <= 12) memcpy(h + 1, elem[w], elen[w]);
    else { memcpy(h + 1, elem[w], 4); h[2] = i & 1; h[3] = (int32_t)pos; if (h[2] && isview) { h[3] += 3; memcpy(data2 + pos + 3, elem[w], elen[w]); memset(data + pos, 0xa5, elen[w]); } }
    memcpy(views + 16 * i, h, 16);
    pos += elen[w];
  }
  o32[total] = (int32_t)pos;
  o64[total] = pos;
  static int64_t vsize[2];
  vsize[0] = DCAP;
  vsize[1] = DCAP + 10;
  static const void* vb[6];
  if (T == 100005 || T == 100006) {
    a->n_buffers = 5;
    vb[0] = NULL; vb[1] = views; vb[2] = data; vb[3] = data2; vb[4] = vsize;
    a->buffers = vb;
  } else {
    a->buffers[1] = T == 100002 || T == 100004 ? (const void*)o64 : (const void*)o32;
    a->buffers[2] = data;
  }
#endif
  a->buffers[0] = NULL;
  if (sx_choose(0, 1, "bitmap")) {
    uint8_t* b = (uint8_t*)blk((size_t)((n + off + 7) / 8));
#ifdef LONGA  // two arbitrary bits
    for (int i = 0; i < (n + off + 7) / 8; i++) b[i] = (uint8_t)(0xb7 + 30 * i);
    b[(off + n - 1) >> 3] ^= sx_u8("validity") & (1 << ((off + n - 1) & 7));
    b[(off + n / 2) >> 3] ^= sx_u8("validity") & (1 << ((off + n / 2) & 7));
#else
    for (int i = 0; i < (n + off + 7) / 8; i++) b[i] = sx_u8("validity");
#endif
    // forks on the bits that matter
    for (int i = off; i < n + off; i++) b[i >> 3] |= 0;
    a->buffers[0] = b;
    a->null_count = -1;
  }
  int from = n ? arr_pick(0, n, "from") : 0;
#ifdef LEAN
  int cnt = n - from, through = !uni;
#else
  int cnt = from < n ? arr_pick(0, n - from, "count") : 0;
#endif
  ev_visitor(&got, &v, &err);
  int rc;
#if MODE == 0
  if (t.gt == 990 ? t.dim == 1 : 1) {
    for (int i = from; i < from + cnt; i++) {
      if (t.gt != 990) { aref_feature(a, t.gt, t.dim, t.coord, i, &ref); continue; }
      ev_add(&ref, EV_FS);
      if (aref_null(a, i)) ev_add(&ref, EV_NULL);
      else {
        ev_gs(&ref, 3, 1);
        uint64_t w[4];
        double d[4];
        for (int j = 0; j < 4; j++) memcpy(&w[j], (const char*)a->children[j]->buffers[1] + 8 * (a->children[j]->offset + off + i), 8);
        memcpy(d, w, 32);
        if (!(d[0] > d[2]) && !(d[1] > d[3])) {
          ev_add(&ref, EV_RS);
          const int ix[5] = {0, 2, 2, 0, 0}, iy[5] = {1, 1, 3, 3, 1};
          for (int k = 0; k < 5; k++) { uint64_t c[2] = {w[ix[k]], w[iy[k]]}; ev_c(&ref, 2, c); }
          ev_add(&ref, EV_RE);
        }
        ev_add(&ref, EV_GE);
      }
      ev_add(&ref, EV_FE);
    }
  }
  struct GeoArrowArrayView view;
  struct GeoArrowArrayReader reader;
#ifndef LEAN
  int through = sx_choose(0, 1, "reader");
#endif
  if (through) {
    SX_ASSERT(GeoArrowArrayReaderInitFromType(&reader, (enum GeoArrowType)T) == 0, "reader");
#ifdef DIRTY
  {
    struct GeoArrowVisitor ev;
    GeoArrowVisitorInitVoid(&ev);
    ev.error = &err;
    int how = sx_choose(0, 3, "earlier");
    struct ArrowArray* e = earlier(t.gt, nd, t.coord, how & 1);
    SX_ASSERT(GeoArrowArrayReaderSetArray(&reader, e, &err) == 0, "a matching array is accepted");
    if (how & 2) (void)GeoArrowArrayReaderVisit(&reader, 0, 3, &ev);
    sx_cover("earlier");
  }
#endif
    SX_ASSERT(GeoArrowArrayReaderSetArray(&reader, a, &err) == 0, "a matching array is accepted");
    rc = GeoArrowArrayReaderVisit(&reader, from, cnt, &v);
    GeoArrowArrayReaderReset(&reader);
  } else {
    SX_ASSERT(GeoArrowArrayViewInitFromType(&view, (enum GeoArrowType)T) == 0, "view");
#ifdef DIRTY
  {
    struct GeoArrowVisitor ev;
    GeoArrowVisitorInitVoid(&ev);
    ev.error = &err;
    int how = sx_choose(0, 3, "earlier");
    struct ArrowArray* e = earlier(t.gt, nd, t.coord, how & 1);
    SX_ASSERT(GeoArrowArrayViewSetArray(&view, e, &err) == 0, "a matching array is accepted");
    if (how & 2) (void)GeoArrowArrayViewVisitNative(&view, 0, 3, &ev);
    sx_cover("earlier");
  }
#endif
    SX_ASSERT(GeoArrowArrayViewSetArray(&view, a, &err) == 0, "a matching array is accepted");
    rc = GeoArrowArrayViewVisitNative(&view, from, cnt, &v);
  }
  if (t.gt == 990 && t.dim != 1) {
    if (cnt) SX_ASSERT(rc != 0, "only XY boxes have a polygon");
    sx_cover("refused");
  } else {
#else
  for (int i = from; i < from + cnt; i++) {
    ev_add(&ref, EV_FS);
    int w = which[off + i];
    const uint8_t* b = (const uint8_t*)a->buffers[0];
    if (b && !((b[(off + i) >> 3] >> ((off + i) & 7)) & 1)) ev_add(&ref, EV_NULL);
    else {
      ev_gs(&ref, iswkt ? (w == 1 ? 2 : 1) : w == 1 ? 2 : w == 3 ? 7 : 1, 1);
      double d[2] = {w == 3 ? 10 : 1, w == 3 ? 20 : 2};
      uint64_t c[2];
      memcpy(c, d, 16);
      if (iswkt ? w == 0 || w == 3 : !(w & 1)) ev_c(&ref, 2, iswkt ? c : ord);
      ev_add(&ref, EV_GE);
    }
    ev_add(&ref, EV_FE);
  }
  struct GeoArrowArrayReader reader;
  struct ArrowSchema s;
  if (sx_choose(0, 1, "from schema")) {
    SX_ASSERT(GeoArrowSchemaInitExtension(&s, (enum GeoArrowType)T) == 0 && GeoArrowArrayReaderInitFromSchema(&reader, &s, &err) == 0, "reader");
    ArrowSchemaRelease(&s);
  } else SX_ASSERT(GeoArrowArrayReaderInitFromType(&reader, (enum GeoArrowType)T) == 0, "reader");
#ifdef DIRTY
  {
    struct GeoArrowVisitor ev;
    GeoArrowVisitorInitVoid(&ev);
    ev.error = &err;
    int how = sx_choose(0, 3, "earlier");
    struct ArrowArray* e = earlier(0, 0, 0, how & 1);
    SX_ASSERT(GeoArrowArrayReaderSetArray(&reader, e, &err) == 0, "a matching array is accepted");
    if (how & 2) (void)GeoArrowArrayReaderVisit(&reader, 0, 3, &ev);
    sx_cover("earlier");
  }
#endif
  SX_ASSERT(GeoArrowArrayReaderSetArray(&reader, a, &err) == 0, "a matching array is accepted");
  rc = GeoArrowArrayReaderVisit(&reader, from, cnt, &v);
  GeoArrowArrayReaderReset(&reader);
  {
#endif
    SX_ASSERT(rc == 0, "the array is read");
    ev_assert_same(&ref, &got, "read");
    ev_observe(&got);
    if (ev_has(&got, EV_NULL)) sx_cover("null");
    if (ev_has(&got, EV_C)) sx_cover("coords");
  }
  for (int i = 0; i < nblocks; i++) free(blocks[i]);
  SX_ASSERT(sx_live_allocs() == live0, "no allocation left");
  return 0;
}
