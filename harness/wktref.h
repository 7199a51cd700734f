// Independent reader of the supported WKT grammar.
#ifndef WKTREF_H
#define WKTREF_H
#include "ev.h"
#include "numref.h"
struct wktref { const char* p; int n, i; int bad, maybe, novalue; struct evlist* l; };
static int wr_ws(char c) { return c == ' ' || c == '\t' || c == '\n' || c == '\r'; }
static int wr_sep(char c) { return wr_ws(c) || c == ',' || c == '(' || c == ')'; }
static void wr_skip(struct wktref* r) { while (r->i < r->n && wr_ws(r->p[r->i])) r->i++; }
static int wr_eat(struct wktref* r, char c) {
  if (r->i < r->n && r->p[r->i] == c) { r->i++; return 1; }
  return 0;
}
// the separator-delimited word at the cursor is exactly w
static int wr_word(struct wktref* r, const char* w) {
  int k = (int)strlen(w);
  if (r->n - r->i < k) return 0;
  for (int j = 0; j < k; j++) if (r->p[r->i + j] != w[j]) return 0;
  if (r->i + k < r->n && !wr_sep(r->p[r->i + k])) return 0;
  r->i += k;
  return 1;
}
static void wr_coord(struct wktref* r, int nd) {
  uint64_t v[4] = {0, 0, 0, 0};
  for (int j = 0; j < nd && !r->bad; j++) {
    if (j > 0) {
      if (r->i >= r->n || !wr_ws(r->p[r->i])) { r->bad = 1; return; }
      wr_skip(r);
    }
    int s = r->i;
    while (r->i < r->n && !wr_sep(r->p[r->i])) r->i++;
    double d = 0;
    int k = numref(r->p + s, r->i - s, &d);
    if (k == 0) r->bad = 1;
    if (k >= 2) r->novalue = 1;
    if (k >= 3) r->maybe = 1;
    memcpy(&v[j], &d, 8);
  }
  if (!r->bad) ev_c(r->l, (uint32_t)nd, v);
}
static void wr_tagged(struct wktref* r, int depth);
// one item of a list of the given kind: 0 coordinates, 1..3 a part of that type without its tag, 7 tagged
static void wr_body(struct wktref* r, int type, int dim, int nd, int depth) {
  wr_skip(r);
  if (!wr_eat(r, '(')) {
    if (!wr_word(r, "EMPTY")) r->bad = 1;
    return;
  }
  for (int k = 0;; k++) {
    wr_skip(r);
    switch (type) {
      case 1: case 2: wr_coord(r, nd); break;
      case 3:
        ev_add(r->l, EV_RS);
        wr_body(r, 2, dim, nd, depth);
        ev_add(r->l, EV_RE);
        break;
      case 7: wr_tagged(r, depth + 1); break;
      default:
        ev_gs(r->l, (uint32_t)(type - 3), (uint32_t)dim);
        if (type == 4 && r->i < r->n && r->p[r->i] != '(' && r->p[r->i] != 'E') wr_coord(r, nd);
        else wr_body(r, type - 3, dim, nd, depth);
        ev_add(r->l, EV_GE);
    }
    if (r->bad) return;
    wr_skip(r);
    if (wr_eat(r, ')')) return;
    if (type == 1 || !wr_eat(r, ',')) { r->bad = 1; return; }
  }
}
static void wr_tagged(struct wktref* r, int depth) {
  static const char* const names[] = {"", "POINT", "LINESTRING", "POLYGON", "MULTIPOINT", "MULTILINESTRING", "MULTIPOLYGON", "GEOMETRYCOLLECTION"};
  wr_skip(r);
  int type = 0;
  for (int t = 1; t <= 7 && !type; t++) if (wr_word(r, names[t])) type = t;
  if (!type) { r->bad = 1; return; }
  wr_skip(r);
  int dim = wr_word(r, "Z") ? 2 : wr_word(r, "M") ? 3 : wr_word(r, "ZM") ? 4 : 1;
  ev_gs(r->l, (uint32_t)type, (uint32_t)dim);
  wr_body(r, type, dim, dim == 1 ? 2 : dim == 4 ? 4 : 3, depth);
  ev_add(r->l, EV_GE);
}
// 0: rejected, 1: accepted, 2: either
static int wktref_read(const char* p, int n, struct evlist* l, int* novalue) {
  struct wktref r = {p, n, 0, 0, 0, 0, l};
  l->n = l->overflow = 0;
  ev_add(l, EV_FS);
  wr_tagged(&r, 0);
  ev_add(l, EV_FE);
  wr_skip(&r);
  if (r.i != r.n) r.bad = 1;
  *novalue = r.novalue;
  return r.bad ? 0 : r.maybe ? 2 : 1;
}
#endif
