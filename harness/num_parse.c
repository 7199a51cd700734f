// GeoArrowFromChars on N arbitrary characters (no terminator after them): accepted exactly when they form
// one decimal literal; the value is that of the independent evaluator.
#include <errno.h>
#include <stdlib.h>
#include <string.h>
#include "geoarrow/geoarrow.h"
#include "sx.h"
#include "numref.h"
#ifndef N
#define N 3
#endif
#ifndef PRE
#define PRE ""
#endif
#ifndef POST
#define POST ""
#endif
#define NP (sizeof(PRE) - 1)
#define NQ (sizeof(POST) - 1)
#define L ((int)(NP + N + NQ))
int sx_main(void) {
  char* p = (char*)malloc(L ? L : 1);
  memcpy(p, PRE, NP);
  sx_make_symbolic(p + NP, N, "text");
  memcpy(p + NP + N, POST, NQ);
#ifdef NUMERIC
  for (int i = 0; i < N; i++) {
    char c = p[NP + i];
    sx_assume(dig(c) | (c == '.') | (c == '-') | (c == 'e'));
  }
#endif
  double got = 0, want = 0;
  int rc = GeoArrowFromChars(p, p + L, &got);
  int r = numref(p, L, &want);
  sx_observe((uint64_t)(rc == 0));
  if (r == 0) {
    SX_ASSERT(rc != 0, "text that is not one number is refused");
    sx_cover("refused");
  } else if (r == 1) {
#ifdef MAYREFUSE
    if (rc != 0) { sx_cover("refused"); free(p); return 0; }
#endif
    SX_ASSERT(rc == 0, "a number is accepted");
    uint64_t a, b;
    memcpy(&a, &got, 8);
    memcpy(&b, &want, 8);
    SX_ASSERT(a == b, "the value is the nearest double");
    sx_observe(a);
    sx_cover("accepted");
  } else if (r == 3) {
    if (rc == 0) SX_ASSERT(got != got || got - got != 0, "words denote non-finite values");
  }
  free(p);
  return 0;
}
