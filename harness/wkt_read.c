// WKT reader on PRE, N arbitrary characters, POST (no terminator).
//   MODE 0: safety    MODE 1: + compare with the reference reader
//   MODE 2: N2 more characters are a second input on the same reader; it behaves as on a fresh one
//   EDIT: PRE with <=1 character at any place replaced by <=N arbitrary characters
//   LONG: PRE is followed by that many coordinates of LNV ordinates
//   MODE 3: NEST nested collections (termination)
#include "wktref.h"
#ifndef N
#define N 4
#endif
#ifndef PRE
#define PRE ""
#endif
#ifndef POST
#define POST ""
#endif
#ifndef PRE2
#define PRE2 ""
#endif
#ifndef MODE
#define MODE 1
#endif
#define NP ((int)sizeof(PRE) - 1)
#define NQ ((int)sizeof(POST) - 1)
static struct evlist got, want;
static struct GeoArrowError err;
static int read_one(struct GeoArrowWKTReader* r, const char* p, int64_t n, struct evlist* l) {
  struct GeoArrowVisitor v;
  err.message[0] = 0;
  ev_visitor(l, &v, &err);
  struct GeoArrowStringView s = {p, n};
  int rc = GeoArrowWKTReaderVisit(r, s, &v);
  if (rc != 0) SX_ASSERT(err.message[0] != 0, "an error has a message");
  return rc;
}
#ifdef CHARS
static void restrict_chars(char* p, int n) {
  static const char set[] = CHARS;
  for (int i = 0; i < n; i++) {
    int ok = 0;
    for (int j = 0; j < (int)sizeof(set) - 1; j++) ok |= p[i] == set[j];
    sx_assume(ok);
  }
}
#else
#define restrict_chars(p, n) (void)0
#endif
int sx_main(void) {
  int live0 = sx_live_allocs();
  struct GeoArrowWKTReader r;
  if (GeoArrowWKTReaderInit(&r)) return 1;
#if MODE == 3
  static const char w[] = "GEOMETRYCOLLECTION(";
  int n = NEST * 19;
  char* p = (char*)malloc(n + 1);
  for (int i = 0; i < NEST; i++) memcpy(p + 19 * i, w, 19);
  p[n] = (char)sx_u8("c");
  int rc = read_one(&r, p, n + 1, &got);
  SX_ASSERT(rc != 0, "unfinished text is rejected");
  sx_cover("rejected");
#else
#ifdef EDIT
  int at = sx_choose(0, NP - 1, "at");
  int del = sx_choose(0, 1, "del");
  int ins = sx_choose(1 - del, N, "ins");
  int n = NP - del + ins;
  char* p = (char*)malloc(n ? n : 1);
  memcpy(p, PRE, at);
  if (ins) sx_make_symbolic(p + at, ins, "text");
  memcpy(p + at + ins, &PRE[at + del], NP - at - del);
#elif defined(LONG)
  char* p = (char*)malloc(NP + LONG * (LNV * 3 + 1) + N + NQ);
  memcpy(p, PRE, NP);
  int n = NP;
  for (int i = 0; i < LONG; i++) {
    if (i) p[n++] = ',';
    for (int j = 0; j < LNV; j++) {
      int k = (i * LNV + j) * 37 % 101;
      if (j) p[n++] = ' ';
      if (k > 9) p[n++] = (char)('0' + k / 10 % 10);
      p[n++] = (char)('0' + k % 10);
    }
  }
  if (N) sx_make_symbolic(p + n, N, "text");
  restrict_chars(p + n, N);
  memcpy(p + n + N, POST, NQ);
  n += N + NQ;
#else
  int n = NP + N + NQ;
  char* p = (char*)malloc(n ? n : 1);
  memcpy(p, PRE, NP);
  if (N) sx_make_symbolic(p + NP, N, "text");
  restrict_chars(p + NP, N);
  memcpy(p + NP + N, POST, NQ);
#endif
  int rc = read_one(&r, p, n, &got);
  sx_observe((uint64_t)rc);
#if MODE == 2
  int n2 = (int)sizeof(PRE2) - 1 + N2;
  char* q = (char*)malloc(n2 ? n2 : 1);
  memcpy(q, PRE2, sizeof(PRE2) - 1);
  if (N2) sx_make_symbolic(q + sizeof(PRE2) - 1, N2, "text2");
  restrict_chars(q + sizeof(PRE2) - 1, N2);
  int rc1 = read_one(&r, q, n2, &got);
  struct GeoArrowWKTReader f;
  if (GeoArrowWKTReaderInit(&f)) return 1;
  int rc2 = read_one(&f, q, n2, &want);
  SX_ASSERT(rc1 == rc2, "same result as a fresh reader");
  ev_assert_same(&got, &want, "same events as a fresh reader");
  if (rc1 == 0) sx_cover("accepted"); else sx_cover("rejected");
  GeoArrowWKTReaderReset(&f);
  free(q);
#else
  if (rc == 0) ev_observe(&got);
#if MODE == 1
  int novalue = 0;
  int k = wktref_read(p, n, &want, &novalue);
  if (k == 0) {
    SX_ASSERT(rc != 0, "text outside the grammar is rejected");
  } else if (k == 1) {
    SX_ASSERT(rc == 0, "text in the grammar is accepted");
  }
  if (k != 0 && rc == 0) {
    if (novalue) {
      SX_ASSERT(got.n == want.n, "same number of events");
    } else {
      ev_assert_same(&got, &want, "wkt");
    }
  }
#endif
  if (rc == 0) { SX_ASSERT(ev_well_formed(&got), "events are correctly nested"); sx_cover("accepted"); }
  else sx_cover("rejected");
#endif
#endif
  GeoArrowWKTReaderReset(&r);
  free(p);
  SX_ASSERT(sx_live_allocs() <= live0, "no leak");
  return 0;
}
