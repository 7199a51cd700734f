// WKB reader on PRE (concrete prefix) followed by N arbitrary bytes.
//   MODE 0: safety, containment of coordinates      MODE 1: + compare with the reference decoder
//   LONG: a sequence of that many coordinates of LNV ordinates follows PRE instead, in byte order LE, the bytes of one of them arbitrary,
//         the last CUT (<= 1 byte) missing
//   MODE 2: two inputs on one reader; the second behaves as on a fresh reader
#include "ev.h"
#ifndef N
#define N 14
#endif
#ifndef PRE
#define PRE
#endif
#ifndef POST
#define POST
#endif
#ifndef MODE
#define MODE 1
#endif
#ifndef NEST
#define NEST 0  // the prefix starts with this many nested collections of one
#endif
static const uint8_t pre[] = {PRE 0};
static const uint8_t post[] = {POST 0};
#define NP0 (sizeof(pre) - 1)
#define NP (9 * NEST + NP0)
#define NQ (sizeof(post) - 1)

static struct evlist got, ref, got2;
static int read_one(struct GeoArrowWKBReader* r, const uint8_t* p, int64_t n, struct evlist* l) {
  struct GeoArrowError err;
  err.message[0] = 0;
  struct GeoArrowVisitor v;
  ev_visitor(l, &v, &err);
  struct GeoArrowBufferView b = {p, n};
  int rc = GeoArrowWKBReaderVisit(r, b, &v);
  return rc;
}
static void containment(struct GeoArrowWKBReader* r, const uint8_t* p, int64_t n) {
  struct GeoArrowError err;
  struct GeoArrowGeometryView g;
  struct GeoArrowBufferView b = {p, n};
  if (GeoArrowWKBReaderRead(r, b, &g, &err) != 0) return;
  SX_ASSERT(g.size_nodes >= 1, "a geometry has nodes");
  for (int64_t i = 0; i < g.size_nodes; i++) {
    const struct GeoArrowGeometryNode* nd = g.root + i;
    SX_ASSERT(i == 0 ? nd->level == 0 : nd->level > 0 && nd->level <= nd[-1].level + 1, "the levels describe one tree");
    if (nd->geometry_type != 1 && nd->geometry_type != 2) continue;
    if (nd->size == 0) continue;
    int nv = _GeoArrowkNumDimensions[nd->dimensions];
    for (int j = 0; j < nv; j++) {
      int64_t first = nd->coords[j] - p;
      SX_ASSERT(first >= 0 && first + 8 <= n, "first ordinate inside the input");
      int64_t last = first + (int64_t)(nd->size - 1) * nd->coord_stride[j];
      SX_ASSERT(last >= 0 && last + 8 <= n, "last ordinate inside the input");
    }
  }
}
int sx_main(void) {
#ifdef LONG
#undef N
  int cut = sx_choose(0, 1, "cut");
  int N = LONG * LNV * 8 - cut;
  uint8_t* p = (uint8_t*)malloc(NP + LONG * LNV * 8 + NQ);
  for (int i = 0; i < LONG * LNV; i++)
    for (int b = 0; b < 8; b++) p[NP + 8 * i + (LE ? b : 7 - b)] = (uint8_t)((0x4010000000000000ull + (uint64_t)i * 3) >> (8 * b));
  static const int pos[] = {0, 63, 95, 96, 127, 128, 191, 192, LONG / 2, LONG - 1};
  int at = pos[sx_choose(0, 9, "at")];
  if (at >= LONG) at = LONG - 1;
  sx_make_symbolic(p + NP + at * LNV * 8, LNV * 8, "wkb");
#elif defined(MANY)
#undef N
  // MANY parts (each a geometry of the bytes PART), one byte and the last eight of one of them arbitrary, the last byte present or not
  static const uint8_t part[] = {PART};
  static const int pos[] = {0, 127, 128, 255, 256, MANY - 1};
  int at = pos[sx_choose(0, 5, "at")], what = sx_choose(0, 3, "what");
  int N = MANY * (int)sizeof(part) - (what == 3);
  uint8_t* p = (uint8_t*)malloc(NP + MANY * sizeof(part) + NQ);
  for (int i = 0; i < MANY; i++) memcpy(p + NP + i * sizeof(part), part, sizeof(part));
  if (sizeof(part) > 20) sx_make_symbolic(p + NP + (at + 1) * sizeof(part) - 8, 8, "ordinate");
  if (what < 3) sx_make_symbolic(p + NP + at * sizeof(part) + (what == 2 ? 4 : what), 1, "wkb");
#else
  uint8_t* p = (uint8_t*)malloc(NP + N + NQ);
  sx_make_symbolic(p + NP, N, "wkb");
#endif
  static const uint8_t one[] = {1, 7, 0, 0, 0, 1, 0, 0, 0};
  for (int i = 0; i < NEST; i++) memcpy(p + 9 * i, one, 9);
  memcpy(p + 9 * NEST, pre, NP0);
  if (NQ) memcpy(p + NP + N, post, NQ);
  int live0 = sx_live_allocs();
  struct GeoArrowWKBReader r;
  if (GeoArrowWKBReaderInit(&r)) return 1;
#if MODE == 2
  uint8_t* q = (uint8_t*)malloc(N2);
  sx_make_symbolic(q, N2, "wkb2");
  (void)read_one(&r, p, NP + N + NQ, &got);
  free(p);
  int rc = read_one(&r, q, N2, &got);
  struct GeoArrowWKBReader f;
  if (GeoArrowWKBReaderInit(&f)) return 1;
  int rc2 = read_one(&f, q, N2, &got2);
  SX_ASSERT(rc == rc2, "a used reader returns what a fresh one returns");
  ev_assert_same(&got, &got2, "reuse");
  if (rc == 0) sx_cover("accepted"); else sx_cover("rejected");
  GeoArrowWKBReaderReset(&f);
  free(q);
#else
  int rc = read_one(&r, p, NP + N + NQ, &got);
  sx_observe((uint64_t)rc);
  if (rc == 0) { ev_observe(&got); }
#if MODE == 0
  containment(&r, p, NP + N + NQ);
  if (rc == 0) sx_cover("accepted"); else sx_cover("rejected");
#else
  ref.n = ref.overflow = 0;
  struct wkbref w = {p, NP + N + NQ, 0, 0};
  ev_add(&ref, EV_FS);
  wkbref_geom(&w, &ref, 0);
  ev_add(&ref, EV_FE);
  if (w.bad) {
    SX_ASSERT(rc != 0, "malformed WKB is rejected");
    sx_cover("rejected");
  } else if (w.deepest >= 255 && rc != 0) {
    sx_cover("too deep");
  } else {
    SX_ASSERT(rc == 0, "well-formed WKB is accepted");
    ev_assert_same(&got, &ref, "decode");
    sx_cover("accepted");
  }
#endif
  free(p);
#endif
  GeoArrowWKBReaderReset(&r);
  SX_ASSERT(sx_live_allocs() <= live0, "no leak");
  return 0;
}
