// The C++ WKB parser on PRE (concrete prefix, NEST nested collections first) followed by N arbitrary bytes and POST.
//  MODE 0: status, events, cursor, edges  1: one parser and geometry used twice  2: array of blobs  3: size beyond 4 GiB
#include <cmath>
#include <cstring>
#include <string>
#include "geoarrow/geoarrow.h"
#include "geoarrow/hpp/wkb_util.hpp"
#include "ev.h"
#ifndef N
#define N 14
#endif
#ifndef PRE
#define PRE
#endif
#ifndef POST
#define POST
#endif
#ifndef MODE
#define MODE 0
#endif
#ifndef NEST
#define NEST 0
#endif
using geoarrow::wkb_util::WKBGeometry;
using geoarrow::wkb_util::WKBParser;
using geoarrow::wkb_util::WKBSequence;
using namespace geoarrow::array_util;
static const uint8_t pre[] = {PRE 0};
static const uint8_t post[] = {POST 0};
#define NP0 (sizeof(pre) - 1)
#if MODE == 4 && !defined(SX_SYMBOLIC)
#undef NEST
#define NEST 1000000  // so deep that unbounded recursion ends the replay
#endif
#define NP (9 * NEST + NP0)
#define NQ (sizeof(post) - 1)

// independent decoder with outcomes: 1 too few bytes, 3 byte order, 4 type; a second outcome that is as true
struct dec {
  const uint8_t* p;
  size_t n, pos;
  int st, alt, unspec;
  uint32_t srid[64];
  int nsrid, deepest;
};
static int d_u32(struct dec* r, int le, uint32_t* out) {
  if (r->n - r->pos < 4) { r->st = 1; return 0; }
  const uint8_t* q = r->p + r->pos;
  r->pos += 4;
  *out = le ? (uint32_t)q[0] | (uint32_t)q[1] << 8 | (uint32_t)q[2] << 16 | (uint32_t)q[3] << 24
            : (uint32_t)q[3] | (uint32_t)q[2] << 8 | (uint32_t)q[1] << 16 | (uint32_t)q[0] << 24;
  return 1;
}
static void d_seq(struct dec* r, struct evlist* l, uint32_t n, uint32_t nd, int le) {
  if (n > (r->n - r->pos) / (8 * nd)) { r->st = 1; return; }
  for (uint32_t i = 0; i < n; i++) {
    uint64_t v[4];
    for (uint32_t j = 0; j < nd; j++) { v[j] = wkbref_u64(r->p + r->pos, le); r->pos += 8; }
    ev_c(l, nd, v);
  }
}
static void d_geom(struct dec* r, struct evlist* l, int depth) {
  if (r->pos >= r->n) { r->st = 1; return; }
  uint8_t e = r->p[r->pos++];
  if (e > 1) { r->st = 3; if (r->n - r->pos < 4) r->alt = 1; return; }
  uint32_t t, srid = 0xFFFFFFFFu, n = 1, k;
  if (!d_u32(r, e, &t)) return;
  int z = (t & 0x80000000u) != 0, m = (t & 0x40000000u) != 0, known;
  uint32_t c = t & 0x1fffffffu;
  known = c < 4000 && c % 1000 >= 1 && c % 1000 <= 7;
  if ((t & 0x20000000u) && !d_u32(r, e, &srid)) { if (!known) r->alt = 4; return; }
  // what numbers that are no type but look like one mean is left open
  if (!known && (t & 0xffffff) % 1000 >= 1 && (t & 0xffffff) % 1000 <= 7) { r->unspec = 1; return; }
  if (!known) { r->st = 4; return; }
  if (c / 1000 == 1 || c / 1000 == 3) z = 1;
  if (c / 1000 >= 2) m = 1;
  c %= 1000;
  uint32_t dim = z && m ? 4 : z ? 2 : m ? 3 : 1, nd = 2u + (uint32_t)z + (uint32_t)m;
  if (r->nsrid < 64) r->srid[r->nsrid++] = srid;
  ev_gs(l, c, dim);
  if (depth > r->deepest) r->deepest = depth;
  if (c > 1 && !d_u32(r, e, &n)) return;
  if (c <= 2) d_seq(r, l, n, nd, e);
  else for (uint32_t i = 0; i < n && !r->st && !r->unspec; i++) {
    if (c > 3) { d_geom(r, l, depth + 1); continue; }
    if (!d_u32(r, e, &k)) return;
    ev_add(l, EV_RS);
    d_seq(r, l, k, nd, e);
    if (!r->st) ev_add(l, EV_RE);
  }
  if (!r->st && !r->unspec) ev_add(l, EV_GE);
}
static void put(struct evlist* l, int dim, const XYZM<double>& c) {
  double d[4] = {c.x(), c.y(), dim == 3 ? c.m() : c.z(), c.m()};
  uint64_t v[4];
  memcpy(v, d, 32);
  if (dim == 1 || dim == 3) SX_ASSERT(std::isnan(c.z()), "a missing z is NaN");
  if (dim == 1 || dim == 2) SX_ASSERT(std::isnan(c.m()), "a missing m is NaN");
  ev_c(l, dim == 1 ? 2u : dim == 4 ? 4u : 3u, v);
}
static int nsrid, pairs;
static uint32_t srids[64];
static bool same(const XYZM<double>& a, const XYZM<double>& b, int n) {
  for (int i = 0; i < n; i++) if (memcmp(&a[i], &b[i], 8) != 0) return false;
  return true;
}
// the geometry as events
static void walk(const WKBGeometry& g, struct evlist* l) {
  ev_gs(l, (uint32_t)g.geometry_type, (uint32_t)g.dimensions);
  if (nsrid < 64) srids[nsrid++] = g.srid;
  if (g.geometry_type <= 3) SX_ASSERT(g.NumGeometries() == 0, "only collections have members");
  else SX_ASSERT(g.NumSequences() == 0, "collections have no coordinates of their own");
  if (g.geometry_type == 1 || g.geometry_type == 2) SX_ASSERT(g.NumSequences() == 1, "one sequence");
  for (uint32_t i = 0; i < g.NumSequences(); i++) {
    const WKBSequence& s = g.Sequence(i);
    int dim = (int)s.dimensions;
    SX_ASSERT(dim == (int)g.dimensions, "dimensions of the sequence");
    if (g.geometry_type == 3) ev_add(l, EV_RS);
    int from = l->n;
    s.VisitVertices<XYZM<double>>([&](XYZM<double> c) { put(l, dim, c); });
    SX_ASSERT(l->overflow || l->n - from == (int)s.size(), "as many vertices as the sequence has");
    // edges join neighbours
    int k = 0;
    XYZM<double> last{};
    int nn = dim == 1 ? 2 : 4;
    s.VisitEdges<XYZM<double>>([&](XYZM<double> a, XYZM<double> b) {
      if (k) SX_ASSERT(same(a, last, dim == 1 ? 2 : dim == 2 ? 3 : dim == 3 ? 2 : nn), "edges are joined");
      for (int side = 0; side < 2 && from + k + side < EV_MAX; side++) {
        double x[2] = {side ? b.x() : a.x(), side ? b.y() : a.y()};
        SX_ASSERT(sx_bytes_eq(x, l->e[from + k + side].v, 16), "edge ordinates");
      }
      last = b;
      k++;
    });
    SX_ASSERT(k == (s.size() < 2 ? 0 : (int)s.size() - 1), "one edge less than vertices");
    // the fast view of native-endian sequences
    if (s.endianness == 1) {
      auto xy = s.ViewAsNativeXY();
      SX_ASSERT(xy.size() == (int64_t)s.size(), "native view size");
      for (int64_t j = 0; j < xy.size() && from + j < EV_MAX; j++) {
        auto c = xy.coord(j);
        SX_ASSERT(sx_bytes_eq(c.data(), l->e[from + j].v, 16), "native view ordinates");
      }
    }
    if (g.geometry_type == 3) ev_add(l, EV_RE);
  }
  for (uint32_t i = 0; i < g.NumGeometries(); i++) walk(g.Geometry(i), l);
  ev_add(l, EV_GE);
}
static struct evlist ref, got;
static struct dec d;
#ifndef MAXDEPTH
#define MAXDEPTH 1000000
#endif
// parse and compare with the decoder
static void one(WKBParser& parser, WKBGeometry& g, const uint8_t* p, size_t n, bool as_view) {
  memset(&d, 0, sizeof d);
  d.p = p;
  d.n = n;
  ref.n = ref.overflow = got.n = got.overflow = 0;
  d_geom(&d, &ref, 0);
  const uint8_t* end = nullptr;
  WKBParser::Status st;
  if (as_view) {
    struct GeoArrowBufferView v = {p, (int64_t)n};
    st = parser.Parse(v, &g, &end);
  } else st = parser.Parse(p, n, &g, &end);
  sx_observe((uint64_t)st);
  if (d.unspec) { sx_cover("unspecified"); return; }
  if (d.deepest > MAXDEPTH && st != WKBParser::OK && st != WKBParser::TOO_MANY_BYTES) { sx_cover("too deep"); return; }
  if (d.st) {
    SX_ASSERT((int)st == d.st || (d.alt && (int)st == d.alt), "malformed input is rejected with its reason");
    sx_cover(d.st == 1 ? "too few bytes" : d.st == 3 ? "byte order" : "type");
    return;
  }
  SX_ASSERT(st == (d.pos < n ? WKBParser::TOO_MANY_BYTES : WKBParser::OK), "well-formed input is accepted, trailing bytes are told");
  SX_ASSERT(end == p + d.pos, "the cursor is where the geometry ends");
  sx_cover(d.pos < n ? "trailing" : "accepted");
  if (ref.overflow) { sx_cover("more events than compared"); return; }
  nsrid = 0;
  walk(g, &got);
  ev_assert_same(&ref, &got, "decode");
  ev_observe(&got);
  SX_ASSERT(nsrid == d.nsrid, "geometries");
  for (int i = 0; i < nsrid; i++) SX_ASSERT(srids[i] == d.srid[i], "SRID");
  // all vertices and edges of the geometry
  int nc = 0, ne = 0, want = 0, i = 0;
  for (int k = 0; k < ref.n; k++) want += ref.e[k].op == EV_C;
  g.VisitVertices<XY<double>>([&](XY<double> c) {
    while (i < ref.n && ref.e[i].op != EV_C) i++;
    SX_ASSERT(i < ref.n && sx_bytes_eq(c.data(), ref.e[i].v, 16), "vertex of the geometry");
    i++;
    nc++;
  });
  SX_ASSERT(nc == want, "every vertex once");
  int wante = 0, run = 0, gt = 0;
  for (int k = 0; k < ref.n; k++) {
    if (ref.e[k].op == EV_GS) gt = (int)ref.e[k].gt;
    if (ref.e[k].op == EV_C) {
      if (gt == 1) wante++;
      else if (run++) wante++;
    } else run = 0;
  }
  g.VisitEdges<XY<double>>([&](XY<double>, XY<double>) { ne++; });
  SX_ASSERT(ne == wante, "every edge once");
}
#if MODE == 2
#ifndef NF
#define NF 2
#endif
// arrays of blobs: validity, offsets, slices, iteration, errors
template <typename Offset>
static void blobs(bool from_view) {
  uint64_t ord[2];
  sx_make_symbolic(ord, 16, "ord");
  int n = sx_choose(0, NF, "features"), off = sx_choose(0, 1, "offset"), total = n + off;
  int bad = -1, which[NF + 1];
  uint8_t* data = (uint8_t*)malloc(200);
  Offset* o = (Offset*)malloc(sizeof(Offset) * (size_t)(total + 1));
  Offset pos = (Offset)(2 * sx_choose(0, 1, "first offset"));
  for (int i = 0; i < total; i++) {
    which[i] = i < off ? 0 : sx_choose(0, 3, "element");
    o[i] = pos;
    uint8_t* q = data + pos;
    memset(q, 0, 30);
    q[0] = which[i] != 1;
    if (which[i] == 2) { q[1] = 2; q[5] = 1; memcpy(q + 9, ord, 16); pos += 25; }  // a linestring
    else {
      q[which[i] == 1 ? 4 : 1] = 1;
      memcpy(q + 5, ord, 16);
      pos += which[i] == 3 ? 20 : 21;  // 3: too short
    }
  }
  o[total] = pos;
  uint8_t* bits = nullptr;
  if (sx_choose(0, 1, "bitmap")) {
    bits = (uint8_t*)malloc(1);
    bits[0] = sx_u8("validity");
  }
  geoarrow::wkb_util::WKBArray<Offset> arr, part;
  if (from_view) {
    struct GeoArrowArrayView view;
    struct GeoArrowError err;
    struct ArrowArray a;
    memset(&a, 0, sizeof a);
    const void* bufs[3] = {bits, o, data};
    a.length = n; a.offset = off; a.n_buffers = 3; a.buffers = bufs;
    a.null_count = bits ? -1 : 0;
    SX_ASSERT(GeoArrowArrayViewInitFromType(&view, GEOARROW_TYPE_WKB) == 0 && GeoArrowArrayViewSetArray(&view, &a, &err) == 0, "the array is accepted");
    if constexpr (sizeof(Offset) == 4) SX_ASSERT(arr.Init(&view) == 0, "the view is accepted");
  } else {
    arr.value.offset = off;
    arr.value.length = n;
    arr.value.offsets = o;
    arr.value.data = data;
    arr.validity = bits;
  }
  int from = n ? sx_choose(0, n, "from") : 0, cnt = n - from;
  part = arr.Slice(from, cnt);
  SX_ASSERT(arr.value.length == n, "slicing leaves the array alone");
  SX_ASSERT(part.value.length == cnt, "length");
  for (int i = 0; i < cnt; i++) {
    int k = off + from + i, null = bits && !((bits[k >> 3] >> (k & 7)) & 1);
    SX_ASSERT(part.is_valid(i) == !null && part.is_null(i) == (bool)null, "validity");
    if (!null && which[k] == 3 && bad < 0) bad = i;
    if (null) sx_cover("null");
    auto b = part.value.blob(i);
    SX_ASSERT(b.data == data + o[k] && b.size_bytes == (int64_t)(o[k + 1] - o[k]), "blob");
  }
  auto it = part.value.begin();
  for (int i = 0; i < cnt; i++, ++it) {
    int k = off + from + i;
    bool thrown = false;
    try {
      const WKBGeometry& g = *it;
      SX_ASSERT(g.geometry_type == (which[k] == 2 ? 2u : 1u) && g.dimensions == GEOARROW_DIMENSIONS_XY, "type");
      SX_ASSERT(g.NumSequences() == 1 && g.Sequence(0).size() == 1, "one coordinate");
      g.VisitVertices<XY<double>>([&](XY<double> c) {
        uint64_t v[2];
        memcpy(v, c.data(), 16);
        uint64_t w[2] = {which[k] == 1 ? __builtin_bswap64(ord[0]) : ord[0], which[k] == 1 ? __builtin_bswap64(ord[1]) : ord[1]};
        SX_ASSERT(v[0] == w[0] && v[1] == w[1], "ordinates");
      });
    } catch (const geoarrow::Exception& e) {
      thrown = true;
    }
    SX_ASSERT(thrown == (which[k] == 3), "malformed elements raise an error, others do not");
    if (thrown) sx_cover("malformed");
  }
  SX_ASSERT(it == part.value.end() && it - part.value.begin() == cnt, "iteration ends");
  int nv = 0, ne = 0, wantv = 0, wante = 0;
  for (int i = 0; i < cnt && (bad < 0 || i < bad); i++) {
    int k = off + from + i;
    if (part.is_null(i)) continue;
    wantv++;
    wante += which[k] != 2;
  }
  bool thrown = false;
  try { part.template VisitVertices<XYZM<double>>([&](XYZM<double>) { nv++; }); } catch (const geoarrow::Exception&) { thrown = true; }
  SX_ASSERT(nv == wantv && thrown == (bad >= 0), "every vertex of the elements that are not null");
  thrown = false;
  try { part.template VisitEdges<XYZM<double>>([&](XYZM<double>, XYZM<double>) { ne++; }); } catch (const geoarrow::Exception&) { thrown = true; }
  SX_ASSERT(ne == wante && thrown == (bad >= 0), "every edge of the elements that are not null");
  sx_observe((uint64_t)nv);
  free(data);
  free(o);
  free(bits);
}
#endif
int sx_main(void) {
  int live0 = sx_live_allocs();
#if MODE == 2
  int kind = sx_choose(0, 2, "kind");
  if (kind == 2) blobs<int64_t>(false);
  else blobs<int32_t>(kind == 1);
#else
  {
#if defined(LONG) || defined(MANY)
#undef N
#ifdef LONG  // a sequence of LONG coordinates of LNV ordinates in byte order LE, one of them arbitrary, the last byte present or not
    enum { ALL = LONG * LNV * 8 };
    static const int spot[] = {0, 63, 64, 127, 128, LONG / 2, LONG - 1};
    int at = spot[sx_choose(0, 6, "at")], cut = sx_choose(0, 1, "cut");
#else  // MANY parts, each of the bytes PART, a byte of one of them arbitrary, the last byte present or not
    static const uint8_t part[] = {PART};
    enum { ALL = MANY * sizeof(part) };
    static const int spot[] = {0, 64, 128, MANY - 1};
    int at = spot[sx_choose(0, 3, "at")], what = sx_choose(0, 1, "what"), cut = what == 1;
#endif
    int N = ALL - cut;
    uint8_t* p = (uint8_t*)malloc(NP + ALL + NQ + 1);
#else
    uint8_t* p = (uint8_t*)malloc(NP + N + NQ + 1);
#endif
    static const uint8_t nest[] = {1, 7, 0, 0, 0, 1, 0, 0, 0};
    for (int i = 0; i < NEST; i++) memcpy(p + 9 * i, nest, 9);
    memcpy(p + 9 * NEST, pre, NP0);
#ifdef LONG
    for (int i = 0; i < LONG * LNV; i++)
      for (int b = 0; b < 8; b++) p[NP + 8 * i + (LE ? b : 7 - b)] = (uint8_t)((0x4010000000000000ull + (uint64_t)i * 3) >> (8 * b));
    sx_make_symbolic(p + NP + (at >= LONG ? LONG - 1 : at) * LNV * 8, LNV * 8, "wkb");
#elif defined(MANY)
    for (int i = 0; i < MANY; i++) memcpy(p + NP + i * sizeof(part), part, sizeof(part));
    if (sizeof(part) > 20) sx_make_symbolic(p + NP + (at + 1) * sizeof(part) - 8, 8, "ordinate");
    if (!cut) sx_make_symbolic(p + NP + at * sizeof(part), 1, "wkb");
#else
    if (N) sx_make_symbolic(p + NP, N, "wkb");
#endif
    if (NQ) memcpy(p + NP + N, post, NQ);
    size_t n = NP + N + NQ;
    uint8_t* x = (uint8_t*)malloc(n ? n : 1);
    memcpy(x, p, n);
    free(p);
    WKBParser parser;
    WKBGeometry g;
#if MODE == 0
    one(parser, g, x, n, sx_choose(0, 1, "view"));
#elif MODE == 1
    uint8_t* y = (uint8_t*)malloc(N2);
    sx_make_symbolic(y, N2, "wkb2");
    (void)parser.Parse(x, n, &g);
    if (sx_choose(0, 1, "reset")) {
      g.Reset();
      SX_ASSERT(g.geometry_type == GEOARROW_GEOMETRY_TYPE_GEOMETRY && g.dimensions == GEOARROW_DIMENSIONS_UNKNOWN && g.srid == WKBGeometry::kSridUnset &&
                    g.NumSequences() == 0 && g.NumGeometries() == 0,
                "a geometry that was reset is as a fresh one");
    } else one(parser, g, y, N2, false);
    free(y);
#elif MODE == 4
    const uint8_t* end = nullptr;
    SX_ASSERT(parser.Parse(x, n, &g, &end) != WKBParser::OK, "unfinished nesting is not accepted");
    sx_cover("refused");
#elif MODE == 3
    // a point at the start of a view said to be larger than 4 GiB: the parser needs no byte beyond the point
    struct GeoArrowBufferView v = {x, (int64_t)0x100000000ll + (int64_t)n};
    memset(&d, 0, sizeof d);
    d.p = x;
    d.n = n;
    d_geom(&d, &ref, 0);
    sx_assume(!d.st && !d.unspec);
    const uint8_t* end = nullptr;
    SX_ASSERT(parser.Parse(v, &g, &end) == WKBParser::TOO_MANY_BYTES && end == x + d.pos, "trailing bytes are told");
    sx_cover("large");
#endif
    free(x);
  }
#endif
  SX_ASSERT(sx_live_allocs() == live0, "no allocation left");
  return 0;
}
