// What a native type keeps of a feature.
#ifndef CANON_H
#define CANON_H
#include "aref.h"
static const uint64_t NAN_BITS = 0x7ff8000000000000ull;
static void map_coord(const struct ev* e, int from, int to, struct evlist* out) {
  uint64_t x = e->v[0], y = e->v[1], z = NAN_BITS, m = NAN_BITS;
  if (from == 2 || from == 4) z = e->v[2];
  if (from == 3) m = e->v[2];
  if (from == 4) m = e->v[3];
  uint64_t v[4] = {x, y, to == 3 ? m : z, m};
  ev_c(out, (uint32_t)gen_nd(to), v);
}
// What the type keeps of a feature: the coordinates, the division into sequences (depth >= 2)
// and of sequences into polygons (depth 3).  Parts without coordinates are left out with strip.
static void canon(const struct evlist* l, int gt, int dim, int strip, struct evlist* out) {
  int depth = aref_depth(gt), from = dim, seqc = 0, seqs = 0, seq_at = 0, poly_at = 0, total = 0, openp = 0;
  out->n = out->overflow = 0;
  for (int i = 0; i < l->n; i++) total += l->e[i].op == EV_C;
  if (total == 0) return;
  for (int i = 0; i < l->n; i++) {
    const struct ev* e = &l->e[i];
    int isline = e->op == EV_GS && (e->gt == 2 || e->gt == 4), ispoly = e->op == EV_GS && (e->gt == 3 || e->gt == 5);
    if (e->op == EV_GS) from = (int)e->dim;
    if (depth == 3 && ispoly) { poly_at = out->n; seqs = 0; openp = 1; ev_add(out, EV_GS); }
    if (depth >= 2 && (e->op == EV_RS || isline)) { seq_at = out->n; seqc = 0; ev_add(out, EV_RS); }
    if (e->op == EV_C) { seqc++; map_coord(e, from, dim, out); }
    if (depth >= 2) {
      int end = e->op == EV_RE;
      if (e->op == EV_GE) {  // of a line, of a polygon, or of something enclosing
        int d = 1, k = i;
        while (d > 0) { k--; d += l->e[k].op == EV_GE; d -= l->e[k].op == EV_GS; }
        if (l->e[k].gt == 2 || l->e[k].gt == 4) end = 1;
        if (depth == 3 && openp && (l->e[k].gt == 3 || l->e[k].gt == 5)) {
          openp = 0;
          if (strip && seqs == 0) out->n = poly_at; else ev_add(out, EV_GE);
        }
      }
      if (end) {
        if (strip && seqc == 0) out->n = seq_at; else { ev_add(out, EV_RE); seqs++; }
      }
    }
  }
}
static int parts_of(const struct evlist* l) {  // parts of the outermost geometry
  int d = 0, n = 0;
  for (int i = 0; i < l->n; i++) {
    if (l->e[i].op == EV_GS && d++ == 1) n++;
    if (l->e[i].op == EV_GE) d--;
  }
  return n;
}
#endif
