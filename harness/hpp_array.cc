// The C++ array views over symbolic native arrays: element access, iteration, slicing, visiting, all coordinates.
//  MODE 0: typed arrays of type TY   1: sequences over raw memory, strided iterators, sequence algebra   2: boxes
#include <cmath>
#include <cstring>
#include "geoarrow/geoarrow.h"
#include "geoarrow/hpp/geometry_type_traits.hpp"
#include "types.h"
#ifndef MODE
#define MODE 0
#endif
#ifndef TY
#define TY 2
#endif
#ifndef NF
#define NF 2
#endif
#include "arrays.h"
using namespace geoarrow::array_util;
static struct GeoArrowError err;

template <typename C>
static void put(struct evlist* l, const C& c) {
  uint64_t v[4] = {0, 0, 0, 0};
  memcpy(v, c.data(), c.size() * 8);
  ev_c(l, (uint32_t)c.size(), v);
}
static uint64_t bits(double d) { uint64_t v; memcpy(&v, &d, 8); return v; }
// coordinate c of the array is e of the reference, seen as XYZM
static void same4(const XYZM<double>& c, const struct ev* e, int dim) {
  int nd = t_nd(dim);
  SX_ASSERT((int)e->nv == nd, "a reference coordinate");
  SX_ASSERT(bits(c.x()) == e->v[0] && bits(c.y()) == e->v[1], "x and y");
  if (dim == 2 || dim == 4) SX_ASSERT(bits(c.z()) == e->v[2], "z"); else SX_ASSERT(std::isnan(c.z()), "a missing z is NaN");
  if (dim >= 3) SX_ASSERT(bits(c.m()) == e->v[nd - 1], "m"); else SX_ASSERT(std::isnan(c.m()), "a missing m is NaN");
}
// an element as events
template <typename C>
static void walk(const CoordSequence<C>& s, int gt, int dim, struct evlist* l) {
  for (const auto c : s) put(l, c);
  SX_ASSERT(s.size() == s.length, "size");
}
template <typename S>
static void walk(const ListSequence<S>& s, int gt, int dim, struct evlist* l) {
  int64_t k = 0;
  for (const auto& part : s) {
    if (gt == 3) ev_add(l, EV_RS); else ev_gs(l, (uint32_t)(gt - 3), (uint32_t)dim);
    walk(part, gt - 3, dim, l);
    if (gt == 3) ev_add(l, EV_RE); else ev_add(l, EV_GE);
    k++;
  }
  SX_ASSERT(k == s.size(), "size");
}
// multipoints have one event group for each coordinate
template <typename C>
static void walk_multipoint(const CoordSequence<C>& s, int dim, struct evlist* l) {
  for (const auto c : s) { ev_gs(l, 1, (uint32_t)dim); put(l, c); ev_add(l, EV_GE); }
}
template <typename S>
static void walk_multipoint(const ListSequence<S>&, int, struct evlist*) {}
template <typename Seq>
static void iterators(const Seq& s) {
  // arithmetic of iterators agrees with counting
  auto b = s.begin(), e = s.end();
  SX_ASSERT(e - b == s.length && b - e == -s.length, "distance");
  int k = s.length ? arr_pick(0, (int)s.length - 1, "k") : 0;
  int m = s.length ? arr_pick(0, (int)s.length, "m") : 0;
  auto i = s.begin(), j = s.begin();
  i += k;
  for (int q = 0; q < m; q++) ++j;
  SX_ASSERT(i - b == k && j - i == m - k, "advance");
  SX_ASSERT((i < j) == (k < m) && (i > j) == (k > m) && (i <= j) == (k <= m) && (i >= j) == (k >= m) && (i == j) == (k == m) && (i != j) == (k != m), "comparison");
  j -= m;
  SX_ASSERT(j == b, "back at the start");
  if (k) { --i; SX_ASSERT(i - b == k - 1, "decrement"); }
}
template <typename C>
static void random_access(const CoordSequence<C>& s) {
  iterators(s);
  auto b = s.begin();
  for (int64_t i = 0; i < s.length; i++) {
    C c = s.coord(i), d = b[i];
    auto it = s.begin();
    it += i;
    C e = *it;
    SX_ASSERT(sx_bytes_eq(c.data(), d.data(), 8 * c.size()) && sx_bytes_eq(c.data(), e.data(), 8 * c.size()), "indexing agrees with element access");
    for (uint32_t j = 0; j < c.size(); j++) {
      auto di = s.dbegin(j), dj = s.dbegin(j);
      di += i;
      double x = *di, y = dj[i];
      for (int64_t q = 0; q < i; q++) dj++;
      double z = dj++;
      SX_ASSERT(bits(x) == bits(c[j]) && bits(y) == bits(c[j]) && bits(z) == bits(c[j]), "ordinate iterators agree with element access");
      SX_ASSERT(s.dend(j) - s.dbegin(j) == s.length && dj - di == 1 && di < s.dend(j), "ordinate iterator distance");
    }
  }
}
template <typename S>
static void random_access(const ListSequence<S>& s) {
  iterators(s);
  // an element by UpdateChild equals the element by iteration
  S child;
  s.InitChild(&child);
  auto it = s.begin();
  for (int64_t i = 0; i < s.length; i++, ++it) {
    s.UpdateChild(&child, i);
    const S& c = *it;
    SX_ASSERT(c.offset == child.offset && c.length == child.length, "elements");
  }
}
template <typename A>
static void view_check(A& arr, struct GeoArrowArrayView* view, struct ArrowArray* a, struct tdesc t, int n) {
  using C = typename geoarrow::type_traits::internal::DimensionTraits<A::dimensions>::coord_type;
  SX_ASSERT((int)A::geometry_type == t.gt && (int)A::dimensions == t.dim, "dispatch by type");
  SX_ASSERT(arr.Init(view) == 0, "the view is accepted");
  SX_ASSERT(arr.value.size() == n, "size");
  int from = n ? arr_pick(0, n, "from") : 0;
  int cnt = from < n ? arr_pick(0, n - from, "count") : 0;
  A part = arr.Slice(from, cnt);
  SX_ASSERT(arr.value.length == n && part.value.length == cnt, "slicing");
  static struct evlist ref, got, all, edges;
  ref.n = got.n = all.n = edges.n = ref.overflow = got.overflow = all.overflow = edges.overflow = 0;
  int hasnull = 0;
  auto it = part.value.begin();
  for (int i = 0; i < cnt; i++, ++it) {
    int nul = aref_null(a, from + i);
    SX_ASSERT(part.is_null(i) == (bool)nul && part.is_valid(i) == !nul, "validity");
    // the element itself, null or not
    ref.n = got.n = 0;
    aref_geom(a, t.gt, t.dim, t.coord, from + i, &ref);
    if (nul) { hasnull = 1; sx_cover("null"); }
    ev_gs(&got, (uint32_t)t.gt, (uint32_t)t.dim);
    if constexpr (A::geometry_type == GEOARROW_GEOMETRY_TYPE_POINT) put(&got, *it);
    else if constexpr (A::geometry_type == GEOARROW_GEOMETRY_TYPE_MULTIPOINT) walk_multipoint(*it, t.dim, &got);
    else walk(*it, t.gt, t.dim, &got);
    ev_add(&got, EV_GE);
    ev_assert_same(&ref, &got, "element");
    if (nul) continue;
    // expected vertices and edges
    int prev = -1;
    for (int k = 0; k < ref.n; k++) {
      if (ref.e[k].op != EV_C) { if (ref.e[k].op != EV_GE && ref.e[k].op != EV_RE) prev = -1; continue; }
      if (all.n < EV_MAX) all.e[all.n++] = ref.e[k];
      if (t.gt == 1 || t.gt == 4) prev = k;
      if (prev >= 0 && edges.n + 1 < EV_MAX) { edges.e[edges.n++] = ref.e[prev]; edges.e[edges.n++] = ref.e[k]; }
      prev = k;
    }
  }
  SX_ASSERT(it == part.value.end(), "iteration ends");
  random_access(part.value);
  int k = 0;
  part.template VisitVertices<XYZM<double>>([&](XYZM<double> c) {
    SX_ASSERT(k < all.n, "no more vertices than there are");
    same4(c, &all.e[k++], t.dim);
  });
  SX_ASSERT(k == all.n, "every vertex of the elements that are not null");
  if (k) sx_cover("vertices");
  k = 0;
  part.template VisitVertices<XY<double>>([&](XY<double> c) { k++; });
  SX_ASSERT(k == all.n, "every vertex again");
  k = 0;
  part.template VisitEdges<XYZM<double>>([&](XYZM<double> p, XYZM<double> q) {
    SX_ASSERT(k + 1 < edges.n, "no more edges than there are");
    same4(p, &edges.e[k++], t.dim);
    same4(q, &edges.e[k++], t.dim);
  });
  SX_ASSERT(k == edges.n, "every edge of the elements that are not null");
  if (k) sx_cover("edges");
  // all coordinates of the slice, null or not
  auto coords = part.Coords();
  if (!hasnull) {
    SX_ASSERT(coords.size() == all.n, "all coordinates");
    for (int i = 0; i < all.n; i++) {
      C c = coords.coord(i);
      SX_ASSERT(sx_bytes_eq(c.data(), all.e[i].v, 8 * c.size()), "coordinate of the slice");
    }
  }
  sx_observe((uint64_t)all.n);
}
template <template <typename> class A>
static void refused(struct GeoArrowArrayView* view, int gt, int dim) {
  A<XY<double>> a;
  A<XYZ<double>> b;
  A<XYM<double>> c;
  A<XYZM<double>> d;
  int same = aref_depth((int)A<XY<double>>::geometry_type) == aref_depth(gt), nd = t_nd(dim);
  SX_ASSERT(!a.Init(view) == same, "nesting and size decide");
  SX_ASSERT(!b.Init(view) == (same && nd >= 3), "nesting and size decide");
  SX_ASSERT(!c.Init(view) == (same && nd >= 3), "nesting and size decide");
  SX_ASSERT(!d.Init(view) == (same && nd >= 4), "nesting and size decide");
}
#if MODE == 1
// sequences over raw memory
template <typename C>
static void raw(void) {
  constexpr int nd = (int)C().size();
  int len = sx_choose(0, 2, "len"), stride = sx_choose(nd, nd + 1, "stride"), sep = sx_choose(0, 1, "separated");
  int shift = sx_choose(0, 1, "unaligned") * 3, cap = (len ? (len - 1) * stride : 0) + nd, st = sep ? sx_choose(1, 2, "step") : stride;
  uint8_t* mem = (uint8_t*)malloc(8 * 32 + 8);
  sx_make_symbolic(mem, 8 * 32 + 8, "mem");
  uint8_t* base = mem + shift;
  CoordSequence<C> al;
  UnalignedCoordSequence<C> un;
  UnalignedCoordSequence<C, internal::LoadSwapped<double>> sw;
  (void)cap;
  if (sep) {
    std::array<const void*, (size_t)nd> dims;
    std::array<const double*, (size_t)nd> ad;
    for (int j = 0; j < nd; j++) { dims[(size_t)j] = base + 8 * 4 * j; ad[(size_t)j] = (const double*)(mem + 8 * 4 * j); }
    SX_ASSERT(un.InitSeparated(len, dims, st) == 0 && sw.InitSeparated(len, dims, st) == 0 && al.InitSeparated(len, ad, st) == 0, "init");
  } else {
    SX_ASSERT(un.InitInterleaved(len, base, st) == 0 && sw.InitInterleaved(len, base, st) == 0 && al.InitInterleaved(len, (const double*)mem, st) == 0, "init");
    UnalignedCoordSequence<C> no;
    SX_ASSERT((no.InitInterleaved(len, nullptr) == 0) == (len == 0), "no memory, no coordinates");
    CoordSequence<C> na;
    SX_ASSERT((na.InitInterleaved(len, nullptr) == 0) == (len == 0), "no memory, no coordinates");
  }
  int from = len ? sx_choose(0, len, "from") : 0, cnt = len - from;
  auto un2 = un.Slice(from, cnt);
  auto sw2 = sw.Slice(from, cnt);
  auto al2 = al.Slice(from, cnt);
  SX_ASSERT(un2.size() == cnt && sw2.size() == cnt && al2.size() == cnt && un.size() == len, "sizes");
  auto at = [&](uint8_t* p, int i, int j) {
    uint64_t v;
    memcpy(&v, p + 8 * (sep ? 4 * j + (from + i) * st : (from + i) * st + j), 8);
    return v;
  };
  for (int i = 0; i < cnt; i++) {
    C c = un2.coord(i), d = sw2.coord(i), e = al2.coord(i);
    for (int j = 0; j < nd; j++) {
      uint64_t w = at(base, i, j);
      SX_ASSERT(bits(c[(size_t)j]) == w && bits(d[(size_t)j]) == __builtin_bswap64(w), "ordinate");
      SX_ASSERT(bits(e[(size_t)j]) == at(mem, i, j), "aligned ordinate");
      auto di = un2.dbegin((uint32_t)j), dj = un2.dbegin((uint32_t)j);
      di += i;
      for (int q = 0; q < i; q++) { double x = dj++; SX_ASSERT(bits(x) == at(base, q, j), "post-increment gives the value"); }
      double x = *di, y = un2.dbegin((uint32_t)j)[i], z = dj++;
      SX_ASSERT(bits(x) == w && bits(y) == w && bits(z) == w, "ordinate iterators");
      auto si = sw2.dbegin((uint32_t)j);
      double sx = si[i];
      si += i;
      double s0 = *si;
      double sz = si++;
      SX_ASSERT(bits(sx) == __builtin_bswap64(w) && bits(s0) == __builtin_bswap64(w) && bits(sz) == __builtin_bswap64(w), "swapped ordinate iterators");
      SX_ASSERT(un2.dend((uint32_t)j) - un2.dbegin((uint32_t)j) == cnt && dj - di == 1 && un2.dbegin((uint32_t)j) < un2.dend((uint32_t)j), "distance");
      auto ai = al2.dbegin((uint32_t)j);
      double a1 = ai[i];
      ai += i;
      double a2 = ai++;
      SX_ASSERT(bits(a1) == at(mem, i, j) && bits(a2) == at(mem, i, j) && al2.dend((uint32_t)j) - ai == cnt - i - 1, "aligned ordinate iterators");
      --ai;
      ai -= i;
      SX_ASSERT(ai == al2.dbegin((uint32_t)j), "back at the start");
    }
    sx_cover("coordinates");
  }
  int k = 0;
  un2.template VisitVertices<XYZM<double>>([&](XYZM<double> c) {
    SX_ASSERT(bits(c.x()) == at(base, k, 0) && bits(c.y()) == at(base, k, 1), "visited");
    k++;
  });
  SX_ASSERT(k == cnt, "every vertex");
  k = 0;
  sw2.template VisitEdges<XY<double>>([&](XY<double> p, XY<double> q) {
    SX_ASSERT(bits(p.x()) == __builtin_bswap64(at(base, k, 0)) && bits(q.y()) == __builtin_bswap64(at(base, k + 1, 1)), "edge");
    k++;
  });
  SX_ASSERT(k == (cnt > 1 ? cnt - 1 : 0), "every edge");
  k = 0;
  al2.template VisitEdges<XYZM<double>>([&](XYZM<double> p, XYZM<double> q) {
    SX_ASSERT(bits(p.y()) == at(mem, k, 1) && bits(q.x()) == at(mem, k + 1, 0), "edge");
    k++;
  });
  SX_ASSERT(k == (cnt > 1 ? cnt - 1 : 0), "every edge");
  iterators(un2);
  free(mem);
}
// slices of slices, children of lists: exact for every offset
static void algebra(void) {
  int64_t o0 = sx_i64("o0"), l0 = sx_i64("l0"), o1 = sx_i64("o1"), l1 = sx_i64("l1"), o2 = sx_i64("o2"), l2 = sx_i64("l2");
  int64_t big = (int64_t)1 << 60;
  sx_assume(o0 >= 0 && l0 >= 0 && o0 < big && l0 < big && o1 >= 0 && l1 >= 0 && o1 <= l0 && l1 <= l0 - o1 && o2 >= 0 && l2 >= 0 && o2 <= l1 && l2 <= l1 - o2);
  CoordSequence<XY<double>> c;
  c.offset = o0; c.length = l0;
  auto c2 = c.Slice(o1, l1).Slice(o2, l2);
  SX_ASSERT(c2.offset == o0 + o1 + o2 && c2.length == l2, "slice of a slice");
  SX_ASSERT(c2.end() - c2.begin() == l2, "distance");
  UnalignedCoordSequence<XYZ<double>> u;
  u.offset = o0; u.length = l0;
  auto u2 = u.Slice(o1, l1).Slice(o2, l2);
  SX_ASSERT(u2.offset == o0 + o1 + o2 && u2.length == l2, "slice of a slice");
  ListSequence<CoordSequence<XY<double>>> s;
  s.offset = o0; s.length = l0;
  auto s2 = s.Slice(o1, l1).Slice(o2, l2);
  SX_ASSERT(s2.offset == o0 + o1 + o2 && s2.length == l2, "slice of a slice");
  LinestringArray<XY<double>> a;
  a.value = s;
  auto a2 = a.Slice(o1, l1).Slice(o2, l2);
  SX_ASSERT(a2.value.offset == o0 + o1 + o2 && a2.value.length == l2, "slice of a slice");
  // a list whose child is itself sliced
  int32_t* offs = (int32_t*)malloc(12);
  sx_make_symbolic(offs, 12, "offsets");
  sx_assume(offs[0] >= 0 && offs[1] >= offs[0] && offs[2] >= offs[1]);
  ListSequence<CoordSequence<XY<double>>> l;
  l.offset = 0; l.length = 2; l.offsets = offs;
  l.child.offset = o0; l.child.length = l0;
  auto v = l.ValidChildElements();
  SX_ASSERT(v.offset == o0 + offs[0] && v.length == (int64_t)offs[2] - offs[0], "elements of the lists");
  auto w = l.Slice(1, 1).ValidChildElements();
  SX_ASSERT(w.offset == o0 + offs[1] && w.length == (int64_t)offs[2] - offs[1], "elements of the lists");
  SX_ASSERT(l.Slice(2, 0).ValidChildElements().length == 0, "no elements");
  auto it = l.begin();
  ++it;
  const auto& e = *it;
  SX_ASSERT(e.offset == o0 + offs[1] && e.length == (int64_t)offs[2] - offs[1], "element");
  free(offs);
  sx_cover("algebra");
}
// conversions between coordinate types
template <typename S, typename D>
static void cast(void) {
  S s;
  for (size_t i = 0; i < s.size(); i++) s[i] = sx_f64("ord");
  D d = CoordCast<S, D>(s);
  SX_ASSERT(bits(d.x()) == bits(s.x()) && bits(d.y()) == bits(s.y()), "x and y are kept");
  constexpr bool hasz = S::dimensions == GEOARROW_DIMENSIONS_XYZ || S::dimensions == GEOARROW_DIMENSIONS_XYZM;
  constexpr bool hasm = S::dimensions == GEOARROW_DIMENSIONS_XYM || S::dimensions == GEOARROW_DIMENSIONS_XYZM;
  constexpr bool dz = D::dimensions == GEOARROW_DIMENSIONS_XYZ || D::dimensions == GEOARROW_DIMENSIONS_XYZM;
  constexpr bool dm = D::dimensions == GEOARROW_DIMENSIONS_XYM || D::dimensions == GEOARROW_DIMENSIONS_XYZM;
  if (dz && hasz) SX_ASSERT(bits(d.z()) == bits(s.z()), "z is kept"); else SX_ASSERT(std::isnan(d.z()), "no z");
  if (dm && hasm) SX_ASSERT(bits(d.m()) == bits(s.m()), "m is kept"); else SX_ASSERT(std::isnan(d.m()), "no m");
}
template <typename S>
static void casts(void) { cast<S, XY<double>>(); cast<S, XYZ<double>>(); cast<S, XYM<double>>(); cast<S, XYZM<double>>(); }
#endif
#if MODE == 1 || MODE == 2
template <typename C, typename B>
static void empty_box(void) {
  B b = B::Empty();
  double inf = std::numeric_limits<double>::infinity();
  SX_ASSERT(b.xmin() == inf && b.ymin() == inf && b.zmin() == inf && b.mmin() == inf, "lower bounds of an empty box");
  SX_ASSERT(b.xmax() == -inf && b.ymax() == -inf && b.zmax() == -inf && b.mmax() == -inf, "upper bounds of an empty box");
  auto l = b.lower_bound();
  auto u = b.upper_bound();
  for (size_t i = 0; i < l.size(); i++) SX_ASSERT(l[i] == inf && u[i] == -inf, "bounds of an empty box");
}
#endif
#if MODE == 2
template <typename C>
static void boxes(struct GeoArrowArrayView* view, struct ArrowArray* a, int n, int dim) {
  BoxArray<C> arr;
  SX_ASSERT(arr.Init(view) == 0, "the view is accepted");
  int from = n ? sx_choose(0, n, "from") : 0, cnt = n - from, nd = t_nd(dim);
  auto part = arr.Slice(from, cnt);
  auto lo = part.LowerBound();
  auto hi = part.UpperBound();
  SX_ASSERT(part.value.size() == cnt && lo.value.size() == cnt && hi.value.size() == cnt, "size");
  random_access(part.value);
  for (int i = 0; i < cnt; i++) {
    int nul = aref_null(a, from + i);
    SX_ASSERT(part.is_null(i) == (bool)nul && lo.is_null(i) == (bool)nul && hi.is_valid(i) == !nul, "validity");
    if (nul) sx_cover("null");
    auto b = part.value.coord(i);
    C l = lo.value.coord(i), h = hi.value.coord(i), l2 = b.lower_bound(), h2 = b.upper_bound();
    for (int j = 0; j < nd; j++) {
      uint64_t w[2];
      for (int q = 0; q < 2; q++) memcpy(&w[q], (const char*)a->children[j + q * nd]->buffers[1] + 8 * (a->children[j + q * nd]->offset + a->offset + from + i), 8);
      SX_ASSERT(bits(b[(size_t)j]) == w[0] && bits(b[(size_t)(j + nd)]) == w[1], "bounds");
      SX_ASSERT(bits(l[(size_t)j]) == w[0] && bits(h[(size_t)j]) == w[1] && bits(l2[(size_t)j]) == w[0] && bits(h2[(size_t)j]) == w[1], "lower and upper bound");
    }
    SX_ASSERT(bits(b.xmin()) == bits(l.x()) && bits(b.ymin()) == bits(l.y()) && bits(b.xmax()) == bits(h.x()) && bits(b.ymax()) == bits(h.y()), "x and y bounds");
    if (dim == 2 || dim == 4) SX_ASSERT(bits(b.zmin()) == bits(l.z()) && bits(b.zmax()) == bits(h.z()), "z bounds");
    else SX_ASSERT(b.zmin() == std::numeric_limits<double>::infinity() && b.zmax() == -std::numeric_limits<double>::infinity(), "no z bounds");
    if (dim >= 3) SX_ASSERT(bits(b.mmin()) == bits(l.m()) && bits(b.mmax()) == bits(h.m()), "m bounds");
    else SX_ASSERT(b.mmin() == std::numeric_limits<double>::infinity() && b.mmax() == -std::numeric_limits<double>::infinity(), "no m bounds");
    sx_cover("bounds");
  }
}
#endif
int sx_main(void) {
  int live0 = sx_live_allocs();
  nnodes = nblocks = 0;
#if MODE == 1
  int what = sx_choose(0, 8, "what");
  if (what == 0) raw<XY<double>>();
  else if (what == 1) raw<XYZ<double>>();
  else if (what == 2) raw<XYM<double>>();
  else if (what == 3) raw<XYZM<double>>();
  else if (what == 4) algebra();
  else if (what == 5) { casts<XY<double>>(); casts<XYZ<double>>(); }
  else if (what == 6) { casts<XYM<double>>(); casts<XYZM<double>>(); }
  else if (what == 7) { empty_box<XY<double>, BoxXY<double>>(); empty_box<XYZ<double>, BoxXYZ<double>>(); }
  else { empty_box<XYM<double>, BoxXYM<double>>(); empty_box<XYZM<double>, BoxXYZM<double>>(); }
#else
#ifdef UNI
  uni = sx_choose(0, 1, "inner offsets");
#endif
  struct tdesc t = {0, 0, 0, 0};
  for (int k = 0; k < NTYPES; k++) if (tdesc_of(k).id == TY) t = tdesc_of(k);
#ifdef LONGA
  int n = LONGA;
#else
  int n = sx_choose(0, NF, "features");
#endif
  int off = OFF ? sx_choose(0, 1, "offset") * OFF : 0;
  int nd = t_nd(t.dim);
  struct ArrowArray* a;
  if (t.gt == 990) {
    a = node(n, off, 1, 2 * nd);
    for (int j = 0; j < 2 * nd; j++) a->children[j] = doubles(n + off, "bound");
  } else a = lists(aref_depth(t.gt), n, off, nd, t.coord, 0, n);
  if (sx_choose(0, 1, "bitmap")) {
    uint8_t* b = (uint8_t*)blk((size_t)((n + off + 7) / 8));
#ifdef LONGA  // an arbitrary bit
    for (int i = 0; i < (n + off + 7) / 8; i++) b[i] = (uint8_t)(0xb7 + 30 * i);
    b[(off + n / 2) >> 3] ^= sx_u8("validity") & (1 << ((off + n / 2) & 7));
#else
    for (int i = 0; i < (n + off + 7) / 8; i++) b[i] = sx_u8("validity");
#endif
    a->buffers[0] = b;
    a->null_count = -1;
  }
  struct GeoArrowArrayView view;
  SX_ASSERT(GeoArrowArrayViewInitFromType(&view, (enum GeoArrowType)TY) == 0, "view");
  SX_ASSERT(GeoArrowArrayViewSetArray(&view, a, &err) == 0, "a matching array is accepted");
#if MODE == 0
  GEOARROW_DISPATCH_NATIVE_ARRAY_CALL((enum GeoArrowType)TY, view_check, &view, a, t, n);
  refused<PointArray>(&view, t.gt, t.dim);
  refused<LinestringArray>(&view, t.gt, t.dim);
  refused<PolygonArray>(&view, t.gt, t.dim);
  refused<MultipointArray>(&view, t.gt, t.dim);
  refused<MultiLinestringArray>(&view, t.gt, t.dim);
  refused<MultiPolygonArray>(&view, t.gt, t.dim);
#else
  if (t.dim == 1) boxes<XY<double>>(&view, a, n, 1);
  else if (t.dim == 2) boxes<XYZ<double>>(&view, a, n, 2);
  else if (t.dim == 3) boxes<XYM<double>>(&view, a, n, 3);
  else boxes<XYZM<double>>(&view, a, n, 4);
#endif
#endif
  for (int i = 0; i < nblocks; i++) free(blocks[i]);
  SX_ASSERT(sx_live_allocs() == live0, "no allocation left");
  return 0;
}
