// Extension metadata: PRE, N arbitrary characters, POST (no terminator).  NEST: that many opening brackets instead.
// EDIT: PRE with <=1 character at any place replaced by <=N arbitrary characters.
#include <stdlib.h>
#include "geoarrow/geoarrow.h"
#include "sx.h"
#include "jsonref.h"
#ifndef N
#define N 3
#endif
#ifndef PRE
#define PRE ""
#endif
#ifndef POST
#define POST ""
#endif
#define NP ((int)sizeof(PRE) - 1)
#define NQ ((int)sizeof(POST) - 1)
int sx_main(void) {
  struct GeoArrowMetadataView v;
  struct GeoArrowError err;
  memset(&v, 0x5a, sizeof v);
  err.message[0] = 0;
#ifdef NEST
#ifndef SX_SYMBOLIC  // so deep that unbounded recursion ends the replay
#undef NEST
#define NEST 3000000
#endif
  int n = 5 + NEST;
  char* p = (char*)malloc((size_t)n);
  memcpy(p, "{\"a\":", 5);
  int c = sx_choose(0, 3, "c");
  for (int i = 0; i < NEST; i++) p[5 + i] = "{["[c < 2 ? c : (i ^ c) & 1];
  struct GeoArrowStringView s = {p, n};
  SX_ASSERT(GeoArrowMetadataViewInit(&v, s, &err) != 0, "unfinished metadata is refused");
  sx_cover("refused");
#else
#ifdef EDIT
  int at = sx_choose(0, NP - 1, "at");
  int del = sx_choose(0, 1, "del");
  int ins = sx_choose(1 - del, N, "ins");
  int n = NP - del + ins;
  char* p = (char*)malloc((size_t)n);
  memcpy(p, PRE, (size_t)at);
  if (ins) sx_make_symbolic(p + at, (uint64_t)ins, "text");
  memcpy(p + at + ins, &PRE[at + del], (size_t)(NP - at - del));
#else
  int n = NP + N + NQ;
  char* p = (char*)malloc((size_t)(n ? n : 1));
  memcpy(p, PRE, NP);
  sx_make_symbolic(p + NP, N, "text");
#ifdef CHARS
  {
    static const char set[] = CHARS;
    for (int i = 0; i < N; i++) {
      int ok = 0;
      for (int j = 0; j < (int)sizeof(set) - 1; j++) ok |= p[NP + i] == set[j];
      sx_assume(ok);
    }
  }
#endif
  memcpy(p + NP + N, POST, NQ);
#endif
  struct GeoArrowStringView s = {p, n};
  int rc = GeoArrowMetadataViewInit(&v, s, &err);
  sx_observe((uint64_t)(rc == 0));
  struct mdref m;
  int want = mdref_read(p, n, &m);
  if (n == 0) want = 1;
  if (rc == 0) {
    SX_ASSERT((int)v.edge_type >= 0 && (int)v.edge_type <= 5 && (int)v.crs_type >= 0 && (int)v.crs_type <= 5, "enumerators");
    if (v.crs.size_bytes) SX_ASSERT(v.crs.data >= p && v.crs.size_bytes > 0 && v.crs.data + v.crs.size_bytes <= p + n, "the crs lies in the text");
    SX_ASSERT(v.metadata.data == p && v.metadata.size_bytes == n, "the text itself");
    sx_cover("accepted");
  } else {
    SX_ASSERT(err.message[0] != 0, "an error has a message");
    sx_cover("refused");
  }
  if (want == 2) SX_ASSERT(rc != 0, "unsupported values are refused");
  if (want == 1) {
    SX_ASSERT(rc == 0, "valid metadata is accepted");
    SX_ASSERT((int)v.edge_type == m.edge, "edges");
    SX_ASSERT((int)v.crs_type == m.crs_type, "crs type");
    SX_ASSERT(v.crs.size_bytes == m.crs_len && (m.crs_len == 0 || v.crs.data == p + m.crs), "crs");
    sx_observe((uint64_t)v.edge_type);
    sx_observe((uint64_t)v.crs_type);
    sx_observe((uint64_t)v.crs.size_bytes);
  }
#endif
  free(p);
  return 0;
}
