// Coordinate copies.  MODE 0: GeoArrowCoordViewCopy, MODE 1: GeoArrowGeometryViewCopyCoordsGeneric,
// MODE 2: GeoArrowGeometryNodeWriteSequence with any claimed size, MODE 3: the same for sequences that fit,
// MODE 4: SetInterleaved / SetSeparated
#include "nodes.h"
#ifndef NC
#define NC 2
#endif
#ifndef MAXP
#define MAXP 2
#endif
#ifndef MODE
#define MODE 0
#endif
#define NANBITS 0x7ff8000000000000ull
#ifdef NFIX
#define COUNT NFIX
#else
#define COUNT sx_choose(0, NC, "n")
#endif
static const char letter[5][5] = {"", "xy", "xyz", "xym", "xyzm"};
// which ordinate of src holds ordinate j of dst, -1: none
static int maps(int sd, int dd, int j) {
  for (int k = 0; k < gen_nd(sd); k++) if (letter[sd][k] == letter[dd][j]) return k;
  return -1;
}
int sx_main(void) {
  int live0 = sx_live_allocs();
#if MODE == 0
  int sd = sx_choose(1, 4, "source dimensions"), dd = sx_choose(1, 4, "target dimensions");
  int sn = gen_nd(sd), dn = gen_nd(dd), n = COUNT, so = sx_choose(0, 1, "offset"), to = sx_choose(0, 1, "target offset");
  int sl = sx_choose(0, 1, "source layout"), dl = sx_choose(0, 1, "target layout");
  int st = so + n, dt = to + n + 1;  // one more target coordinate than is written
  uint64_t* s = (uint64_t*)malloc((size_t)st * sn * 8 + 1);
  uint64_t* d = (uint64_t*)malloc((size_t)dt * dn * 8);
  sx_make_symbolic(s, (uint64_t)st * sn * 8, "source");
  for (int i = 0; i < dt * dn; i++) d[i] = 0xabcdef00u + (unsigned)i;
  struct GeoArrowCoordView sv;
  struct GeoArrowWritableCoordView dv;
  memset(&sv, 0, sizeof sv);
  memset(&dv, 0, sizeof dv);
  sv.n_coords = st; sv.n_values = sn; sv.coords_stride = sl ? 1 : sn;
  dv.size_coords = dt; dv.capacity_coords = dt; dv.n_values = dn; dv.coords_stride = dl ? 1 : dn;
#define SI(i, j) (sl ? (j) * st + (i) : (i) * sn + (j))
#define DI(i, j) (dl ? (j) * dt + (i) : (i) * dn + (j))
  for (int j = 0; j < sn; j++) sv.values[j] = (const double*)s + SI(0, j);
  for (int j = 0; j < dn; j++) dv.values[j] = (double*)d + DI(0, j);
  GeoArrowCoordViewCopy(&sv, (enum GeoArrowDimensions)sd, so, &dv, (enum GeoArrowDimensions)dd, to, n);
  int ok = 1, keep = 1;
  for (int i = 0; i < dt; i++)
    for (int j = 0; j < dn; j++) {
      uint64_t got = d[DI(i, j)];
      if (i < to || i >= to + n) keep &= got == 0xabcdef00u + (unsigned)DI(i, j);
      else {
        int k = maps(sd, dd, j);
        ok &= got == (k < 0 ? NANBITS : s[SI(i - to + so, k)]);
      }
    }
  SX_ASSERT(ok, "each ordinate is the source's, or NaN when the source lacks it");
  SX_ASSERT(keep, "coordinates outside the copied range are untouched");
  sx_observe_bytes(d, (uint64_t)dt * dn * 8);
  sx_cover("copied");
  free(s);
  free(d);
#elif MODE == 1
  static struct nodelist l;
  static struct evlist ref;
  l.maxc = NC; l.maxp = MAXP; l.maxdepth = 0; l.swapmode = 1;
#ifndef TYPE
#define TYPE 3
#endif
  int sd = sx_choose(1, 4, "source dimensions"), dd = sx_choose(1, 4, "target dimensions");
  nl_geom(&l, &ref, TYPE, sd, 0);
  struct GeoArrowGeometryView gv = {l.n, l.size};
  int nc = 0, dn = gen_nd(dd), dl = sx_choose(0, 2, "target layout");
  for (int i = 0; i < ref.n; i++) nc += ref.e[i].op == EV_C;
  SX_ASSERT((int)GeoArrowGeometryViewNumCoords(gv) == nc, "number of coordinates");
  int es = dl == 1 ? nc * 8 : 8, cs = dl == 0 ? dn * 8 : dl == 1 ? 8 : dn * 8 + 5;
  int total = (dl == 2 ? nc * cs : nc * dn * 8) + 1;
  uint8_t* d = (uint8_t*)malloc((size_t)total);
  memset(d, 0x77, (size_t)total);
  uint8_t* out[4] = {NULL, NULL, NULL, NULL};
  int32_t strides[4] = {0, 0, 0, 0};
  for (int j = 0; j < dn; j++) { out[j] = d + j * es; strides[j] = cs; }
  GeoArrowGeometryViewCopyCoordsGeneric(gv, out, strides, (enum GeoArrowDimensions)dd);
  int ok = 1, c = 0;
  for (int i = 0; i < ref.n; i++) {
    if (ref.e[i].op != EV_C) continue;
    for (int j = 0; j < dn; j++) {
      uint64_t got;
      memcpy(&got, d + j * es + c * cs, 8);
      int k = maps(sd, dd, j);
      uint64_t w = k < 0 ? NANBITS : ref.e[i].v[k];
      ok &= k < 0 ? (got & 0x7ff0000000000000ull) == 0x7ff0000000000000ull && (got & 0xfffffffffffffull) != 0 : got == w;
      memset(d + j * es + c * cs, 0x77, 8);
    }
    c++;
  }
  SX_ASSERT(ok, "each ordinate is the source's, or NaN when the source lacks it");
  for (int i = 0; i < total; i++) SX_ASSERT(d[i] == 0x77, "nothing else is written");
  if (c) sx_cover("copied");
  free(d);
  nl_free(&l);
#elif MODE == 2
  struct GeoArrowGeometryNode nd;
  memset(&nd, 0, sizeof nd);
  nd.geometry_type = GEOARROW_GEOMETRY_TYPE_LINESTRING;
  int dim = sx_choose(1, 4, "dimensions");
  nd.dimensions = (uint8_t)dim;
  nd.flags = sx_u8("flags") & 1;
  nd.size = sx_u32("size");
  int64_t need = (int64_t)nd.size * gen_nd(dim) * 8, have = sx_i64("dst_size");
  sx_assume(have >= 0 && have < need);
  uint8_t guard[8] = {1, 2, 3, 4, 5, 6, 7, 8};
  int64_t r = GeoArrowGeometryNodeWriteSequence(&nd, guard, have);
  SX_ASSERT(r == need, "the required size, without wrap-around");
  for (int i = 0; i < 8; i++) SX_ASSERT(guard[i] == i + 1, "nothing is written when it does not fit");
  sx_cover("too small");
#elif MODE == 3
  static struct nodelist l;
  static struct evlist ref;
  l.maxc = NC; l.maxp = 2; l.swapmode = 1;
  int dim = sx_choose(1, 4, "dimensions"), dn = gen_nd(dim), extra = sx_choose(0, 1, "extra");
  nl_geom(&l, &ref, 2, dim, 0);
  int nc = (int)l.n[0].size, need = nc * dn * 8;
  uint8_t* d = (uint8_t*)malloc((size_t)need + extra + 1);
  memset(d, 0x77, (size_t)need + extra + 1);
  int64_t r = GeoArrowGeometryNodeWriteSequence(&l.n[0], d, need + extra);
  SX_ASSERT(r == need, "the required size");
  int ok = 1;
  for (int i = 0, c = 0; i < ref.n; i++) {
    if (ref.e[i].op != EV_C) continue;
    ok &= memcmp(d + c * dn * 8, ref.e[i].v, (size_t)dn * 8) == 0;
    c++;
  }
  SX_ASSERT(ok, "every ordinate in native byte order");
  for (int i = need; i < need + extra + 1; i++) SX_ASSERT(d[i] == 0x77, "nothing written behind");
  sx_observe_bytes(d, (uint64_t)need);
  if (nc) sx_cover("copied");
  free(d);
  nl_free(&l);
#elif MODE == 4
  int dim = sx_choose(1, 4, "dimensions"), dn = gen_nd(dim), n = sx_choose(0, NC, "n"), lay = sx_choose(0, 1, "layout");
  int gt = sx_choose(1, 2, "type");
  uint64_t* s = (uint64_t*)malloc((size_t)n * dn * 8 + 1);
  sx_make_symbolic(s, (uint64_t)n * dn * 8, "source");
  struct GeoArrowBufferView b = {(const uint8_t*)s, (int64_t)n * dn * 8};
  struct GeoArrowGeometryNode nd;
  memset(&nd, 0, sizeof nd);
  if (lay) GeoArrowGeometryNodeSetSeparated(&nd, (enum GeoArrowGeometryType)gt, (enum GeoArrowDimensions)dim, b);
  else GeoArrowGeometryNodeSetInterleaved(&nd, (enum GeoArrowGeometryType)gt, (enum GeoArrowDimensions)dim, b);
  SX_ASSERT(nd.geometry_type == gt && nd.dimensions == dim && (int)nd.size == n, "type, dimensions and size");
  int ok = 1;
  for (int i = 0; i < n; i++)
    for (int j = 0; j < dn; j++) {
      uint64_t v;
      memcpy(&v, nd.coords[j] + i * nd.coord_stride[j], 8);
      ok &= v == s[lay ? j * n + i : i * dn + j];
    }
  SX_ASSERT(ok, "each ordinate is found");
  sx_cover("copied");
  free(s);
#endif
  SX_ASSERT(sx_live_allocs() <= live0, "no leak");
  return 0;
}
