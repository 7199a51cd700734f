// Independent strict JSON reader for GeoArrow extension metadata.
#ifndef JSONREF_H
#define JSONREF_H
#include <stdint.h>
#include <string.h>
struct jr { const char* p; int n, i, bad; };
static void jr_ws(struct jr* r) { while (r->i < r->n && (r->p[r->i] == ' ' || r->p[r->i] == '\t' || r->p[r->i] == '\n' || r->p[r->i] == '\r')) r->i++; }
static int jr_at(struct jr* r, char c) { return r->i < r->n && r->p[r->i] == c; }
static int jr_hex(char c) { return (c >= '0' && c <= '9') || ((c | 32) >= 'a' && (c | 32) <= 'f'); }
static int jr_digit(char c) { return c >= '0' && c <= '9'; }
static void jr_string(struct jr* r) {
  if (!jr_at(r, '"')) { r->bad = 1; return; }
  r->i++;
  while (r->i < r->n) {
    unsigned char c = (unsigned char)r->p[r->i];
    if (c == '"') { r->i++; return; }
    if (c < 32) break;
    if (c == '\\') {
      r->i++;
      if (r->i >= r->n) break;
      char e = r->p[r->i];
      if (e == 'u') {
        for (int k = 0; k < 4; k++) {
          r->i++;
          if (r->i >= r->n || !jr_hex(r->p[r->i])) { r->bad = 1; return; }
        }
      } else if (!(e == '"' || e == '\\' || e == '/' || e == 'b' || e == 'f' || e == 'n' || e == 'r' || e == 't')) break;
    }
    r->i++;
  }
  r->bad = 1;
}
static int jr_word(struct jr* r, const char* w) {
  int k = (int)strlen(w);
  if (r->n - r->i < k) return 0;
  for (int j = 0; j < k; j++) if (r->p[r->i + j] != w[j]) return 0;
  r->i += k;
  return 1;
}
static void jr_number(struct jr* r) {
  if (jr_at(r, '-')) r->i++;
  if (r->i >= r->n || !jr_digit(r->p[r->i])) { r->bad = 1; return; }
  if (r->p[r->i] == '0') r->i++;
  else while (r->i < r->n && jr_digit(r->p[r->i])) r->i++;
  if (jr_at(r, '.')) {
    r->i++;
    if (r->i >= r->n || !jr_digit(r->p[r->i])) { r->bad = 1; return; }
    while (r->i < r->n && jr_digit(r->p[r->i])) r->i++;
  }
  if (jr_at(r, 'e') || jr_at(r, 'E')) {
    r->i++;
    if (jr_at(r, '-') || jr_at(r, '+')) r->i++;
    if (r->i >= r->n || !jr_digit(r->p[r->i])) { r->bad = 1; return; }
    while (r->i < r->n && jr_digit(r->p[r->i])) r->i++;
  }
}
// kind of the value: 's' string, '{', '[', 'n' null, 'o' number or boolean
static int jr_value(struct jr* r) {
  jr_ws(r);
  if (r->i >= r->n) { r->bad = 1; return 0; }
  char c = r->p[r->i];
  if (c == '"') { jr_string(r); return 's'; }
  if (c == '{' || c == '[') {
    char close = c == '{' ? '}' : ']';
    r->i++;
    jr_ws(r);
    if (jr_at(r, close)) { r->i++; return c; }
    for (;;) {
      if (c == '{') {
        jr_ws(r);
        jr_string(r);
        if (r->bad) return 0;
        jr_ws(r);
        if (!jr_at(r, ':')) { r->bad = 1; return 0; }
        r->i++;
      }
      jr_value(r);
      if (r->bad) return 0;
      jr_ws(r);
      if (jr_at(r, close)) { r->i++; return c; }
      if (!jr_at(r, ',')) { r->bad = 1; return 0; }
      r->i++;
    }
  }
  if (jr_word(r, "null")) return 'n';
  if (jr_word(r, "true") || jr_word(r, "false")) return 'o';
  jr_number(r);
  return 'o';
}
struct mdref { int edge, crs_type, crs, crs_len; };
static int jr_is(struct jr* r, int a, int b, const char* w) { return b - a == (int)strlen(w) && memcmp(r->p + a, w, (size_t)(b - a)) == 0; }
// 0: not JSON, or keys repeated (nothing is claimed), 1: must be accepted with *m, 2: must be refused
static int mdref_read(const char* p, int n, struct mdref* m) {
  struct jr r = {p, n, 0, 0};
  int refuse = 0, ncrs = 0, nedge = 0, ntype = 0, type = 1;
  m->edge = m->crs_type = m->crs = m->crs_len = 0;
  jr_ws(&r);
  if (!jr_at(&r, '{')) {
    struct jr q = r;
    jr_value(&q);
    if (q.bad) return 0;
    jr_ws(&q);
    return q.i == q.n ? 2 : 0;
  }
  r.i++;
  jr_ws(&r);
  if (jr_at(&r, '}')) r.i++;
  else for (;;) {
    jr_ws(&r);
    int ka = r.i;
    jr_string(&r);
    int kb = r.i;
    if (r.bad) return 0;
    jr_ws(&r);
    if (!jr_at(&r, ':')) return 0;
    r.i++;
    jr_ws(&r);
    int va = r.i, kind = jr_value(&r), vb = r.i;
    if (r.bad) return 0;
    if (kind == 'o') refuse = 1;
    if (jr_is(&r, ka, kb, "\"edges\"")) {
      static const char* const names[] = {"\"planar\"", "\"spherical\"", "\"vincenty\"", "\"thomas\"", "\"andoyer\"", "\"karney\""};
      int k = kind == 'n' ? 0 : -1;
      for (int e = 0; e < 6 && kind == 's'; e++) if (jr_is(&r, va, vb, names[e])) k = e;
      if (k < 0) refuse = 1;
      m->edge = k;
      nedge++;
    } else if (jr_is(&r, ka, kb, "\"crs\"")) {
      if (kind == '[') refuse = 1;
      if (kind != 'n') { m->crs = va; m->crs_len = vb - va; }
      ncrs++;
    } else if (jr_is(&r, ka, kb, "\"crs_type\"")) {
      static const char* const names[] = {"", "", "\"projjson\"", "\"wkt2:2019\"", "\"authority_code\"", "\"srid\""};
      if (kind != 's') refuse = 1;
      for (int e = 2; e < 6; e++) if (jr_is(&r, va, vb, names[e])) type = e;
      ntype++;
    }
    jr_ws(&r);
    if (jr_at(&r, '}')) { r.i++; break; }
    if (!jr_at(&r, ',')) return 0;
    r.i++;
  }
  jr_ws(&r);
  if (r.i != r.n || nedge > 1 || ncrs > 1 || ntype > 1) return 0;
  m->crs_type = m->crs_len ? type : 0;
  return refuse ? 2 : 1;
}
#endif
