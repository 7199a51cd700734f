// Serialising metadata.  MODE 0: serialise, parse back, unescape; MODE 1: unescape anything into any buffer.
#include <stdlib.h>
#include "geoarrow/geoarrow.h"
#include "sx.h"
#include "jsonref.h"
#ifndef MODE
#define MODE 0
#endif
#ifndef N
#define N 2
#endif
#ifndef KIND
#define KIND 0
#endif
#ifndef PRE
#define PRE ""
#endif
#ifndef POST
#define POST ""
#endif
#define NP ((int)sizeof(PRE) - 1)
#define NQ ((int)sizeof(POST) - 1)
#define CAN 0x5d
int sx_main(void) {
  int live0 = sx_live_allocs();
  int len = NP + N + NQ;
  char* crs = (char*)malloc((size_t)len + 1);
  memcpy(crs, PRE, NP);
  sx_make_symbolic(crs + NP, N, "crs");
  memcpy(crs + NP + N, POST, NQ);
  struct GeoArrowStringView sv = {crs, len};
#if MODE == 0
  // KIND 0: plain characters, 1: a JSON string, 2: a JSON object
  if (KIND == 0) {
    if (len) sx_assume(crs[0] != '{' && crs[0] != '"');
  } else {
    struct jr r = {crs, len, 0, 0};
    jr_value(&r);
    sx_assume(!r.bad && r.i == len && crs[0] == (KIND == 1 ? '"' : '{'));
  }
#ifdef ONE  // one combination of the enumerators, an exact buffer
  int edge = ONE / 10, type = ONE % 10;
#else
  int edge = sx_choose(0, 5, "edges"), type = sx_choose(0, 5, "crs type");
#endif
  struct GeoArrowMetadataView v, back;
  memset(&v, 0, sizeof v);
  memset(&back, 0x5a, sizeof back);
  v.edge_type = (enum GeoArrowEdgeType)edge;
  v.crs_type = (enum GeoArrowCrsType)type;
  if (type != 0) v.crs = sv;
  int size = (int)GeoArrowMetadataSerialize(&v, NULL, 0);
  SX_ASSERT(size >= 2 && size < 2 * len + 200, "plausible size");
#ifdef ONE
  int how = 1;
#else
  int how = sx_choose(0, 5, "buffer");
#endif
  int cap = how == 0 ? size : how == 1 ? size + 1 : how == 2 ? size + 3 : how == 3 ? size - 1 : how == 4 ? 1 : 0;
  char* out = (char*)malloc((size_t)cap + 1);
  memset(out, CAN, (size_t)cap + 1);
  SX_ASSERT(GeoArrowMetadataSerialize(&v, out, cap) == size, "the same size whatever the buffer");
  SX_ASSERT(out[cap] == CAN, "nothing past the buffer");
  if (cap > size) SX_ASSERT(out[size] == 0, "terminated when there is room");
  if (cap >= size) {
    struct GeoArrowError err;
    char* text = (char*)malloc((size_t)size);
    memcpy(text, out, (size_t)size);
    struct GeoArrowStringView t = {text, size};
    SX_ASSERT(GeoArrowMetadataViewInit(&back, t, &err) == 0, "the text parses");
    SX_ASSERT((int)back.edge_type == edge, "edges");
    SX_ASSERT((int)back.crs_type == type, "crs type");
    if (type == 0) SX_ASSERT(back.crs.size_bytes == 0, "no crs");
    int plain = 1;
    for (int i = 0; i < len; i++) plain &= (unsigned char)crs[i] >= 32;
    struct mdref m;
    if (type == 0 || plain) SX_ASSERT(mdref_read(text, size, &m) == 1 && m.edge == edge && m.crs_type == type, "the text is JSON and says the same");
    if (type != 0) {
      if (KIND > 0) {
        SX_ASSERT(back.crs.size_bytes == len && memcmp(back.crs.data, crs, (size_t)len) == 0, "a JSON crs is carried unchanged");
      } else {
        #ifdef ONE
        int n = len + 1;
#else
        int n = sx_choose(0, len + 2, "unescape buffer");
#endif
        char* o = (char*)malloc((size_t)n + 1);
        memset(o, CAN, (size_t)n + 1);
        SX_ASSERT(GeoArrowUnescapeCrs(back.crs, n ? o : NULL, n) == len, "length of the crs");
        int ok = 1;
        for (int i = 0; i < n && i < len; i++) ok &= o[i] == crs[i];
        SX_ASSERT(ok, "characters of the crs");
        if (n > len) SX_ASSERT(o[len] == 0, "terminated when there is room");
        SX_ASSERT(o[n] == CAN, "nothing past the buffer");
        sx_observe_bytes(o, (uint64_t)n);
        free(o);
      }
    }
    free(text);
    sx_cover("complete");
  } else {
    sx_cover("short");
  }
  sx_observe((uint64_t)size);
  free(out);
#else
  int full = (int)GeoArrowUnescapeCrs(sv, NULL, 0);
  SX_ASSERT(full >= 0 && full <= len, "no longer than the input");
  char all[NP + N + NQ + 64], *o;
  memset(all, CAN, sizeof all);
  SX_ASSERT(GeoArrowUnescapeCrs(sv, all, sizeof all) == full && all[full] == 0, "terminated when there is room");
  int n = sx_choose(0, len + 2, "size");
  o = (char*)malloc((size_t)n + 1);
  memset(o, CAN, (size_t)n + 1);
  SX_ASSERT(GeoArrowUnescapeCrs(sv, o, n) == full, "the same length whatever the buffer");
  int ok = 1;
  for (int i = 0; i < n; i++) ok &= o[i] == (i < full ? all[i] : i == full ? 0 : CAN);
  SX_ASSERT(ok && o[n] == CAN, "a prefix, nothing past the buffer");
  if (len && crs[0] != '"') SX_ASSERT(full == len && memcmp(all, crs, (size_t)len) == 0, "plain text is copied");
  if (len > 1 && crs[0] == '"') {
    int w = 0, esc = 0;
    ok = 1;
    for (int i = 1; i < len - 1; i++) {
      if (!esc && crs[i] == '\\') { esc = 1; continue; }
      esc = 0;
      ok &= all[w++] == crs[i];
    }
    SX_ASSERT(ok && w == full, "backslashes that escape are dropped");
  }
  sx_observe((uint64_t)full);
  sx_observe_bytes(o, (uint64_t)n);
  sx_cover("unescaped");
  free(o);
#endif
  free(crs);
  SX_ASSERT(sx_live_allocs() == live0, "no allocation left");
  return 0;
}
