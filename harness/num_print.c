// GeoArrowPrintDouble on f = +-(BASE + s) * 2^K for every s of BITS bits, at precision P: at most 40 characters,
// plain decimal text without superfluous characters, within half a unit of the last place of f, and (BACK)
// reading the text gives f again.
#include <stdlib.h>
#include <string.h>
#include "geoarrow/geoarrow.h"
#include "sx.h"
#include "numref.h"
int64_t GeoArrowPrintDouble(double f, uint32_t precision, char* result);
#ifndef BITS
#define BITS 8
#endif
#ifndef BASE
#define BASE 0
#endif
#ifndef K
#define K -4
#endif
#ifndef P
#define P 16
#endif
typedef unsigned __int128 u128;
int sx_main(void) {
  uint64_t m = BASE;
#if BITS > 8
  m += sx_u8("m") + ((uint64_t)(sx_u8("n") & ((1 << (BITS - 8)) - 1)) << 8);
#else
  m += sx_u8("m") & ((1 << BITS) - 1);
#endif
  int neg = sx_choose(0, 1, "sign");
  double f = (double)m;
  f = K < 0 ? f / (double)(1ull << (K < 0 ? -(K) : 0)) : f * (double)(1ull << (K < 0 ? 0 : (K)));
  if (neg) f = -f;
  char* t = (char*)malloc(40);
  int64_t n = GeoArrowPrintDouble(f, P, t);
  SX_ASSERT(n >= 1 && n <= 40, "between 1 and 40 characters");
#ifdef SCI
  double h = 0;
  SX_ASSERT(GeoArrowFromChars(t, t + n, &h) == 0, "the text is a number");
  SX_ASSERT(h == f, "the text reads back as the value");
  sx_observe_bytes(t, (uint64_t)n);
  sx_cover("printed");
  free(t);
  return 0;
#endif
  int i = 0, frac = 0, dot = 0, ni = 0;
  u128 v = 0;
  if (t[0] == '-') { SX_ASSERT(neg, "a minus sign only for negative values"); i = 1; }
  int first = i;
  for (; i < n && i < 40; i++) {
    if (t[i] == '.') {
      SX_ASSERT(!dot, "one decimal point");
      dot = 1;
      continue;
    }
    SX_ASSERT(dig(t[i]), "only digits");
    v = v * 10 + (u128)(t[i] - '0');
    if (dot) frac++;
    else ni++;
  }
  SX_ASSERT(ni >= 1, "digits before the point");
  SX_ASSERT(ni == 1 || t[first] != '0', "no leading zero");
  if (dot) SX_ASSERT(frac >= 1 && t[n - 1] != '0', "no trailing zero or point");
  SX_ASSERT(frac <= P, "no more decimals than the precision");
  if (neg && v == 0) sx_cover("minus zero");
  // |v/10^frac - m*2^K| <= 1/2 10^-P (+ one unit of the double's last place)
  u128 a = v, b = m, scale = 1, ten = 1;
  for (int j = 0; j < P - frac; j++) a *= 10;
  for (int j = 0; j < P; j++) b *= 10;
  if (K < 0) { a <<= -(K) & 63; scale <<= -(K) & 63; }
  else b <<= (K) & 63;
  u128 diff = a > b ? a - b : b - a;
  SX_ASSERT(2 * diff <= scale * ten + 2 * (b >> 52), "within half a unit of the last printed place");
#ifdef BACK
  double g = 0;
  SX_ASSERT(GeoArrowFromChars(t, t + n, &g) == 0, "the text is a number");
  SX_ASSERT(g == f, "the text reads back as the value");
#endif
  sx_observe((uint64_t)n);
  sx_observe_bytes(t, (uint64_t)n);
  sx_cover("printed");
  free(t);
  return 0;
}
