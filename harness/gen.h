// Symbolic generator of well-formed visitor event sequences: the structure is
// chosen by forking within stated bounds, every ordinate is a solver variable.
// Each generated call goes to a visitor and is recorded in a reference list.
#ifndef GEN_H
#define GEN_H
#include "ev.h"
struct gen {
  struct GeoArrowVisitor* v;  // may be NULL: only record
  struct evlist* ref;
  int maxc, maxp;   // most coordinates per sequence, parts per collection
  int layout;       // 0 interleaved, 1 separated, 2 chosen
  int split;        // 1: a sequence may be delivered in two coords() calls
  int rc;           // first non-zero return code
  int noempty;      // 1: no empty sequences or collections
  int maxdepth;     // nesting of collections below the root
  int (*value)(double* out, int i);  // ordinate source; NULL: symbolic bits
};
static struct GeoArrowError gen_error;
static int gen_nd(int dim) { return dim == 1 ? 2 : dim == 4 ? 4 : 3; }
#define GEN_CALL(g, call) do { if ((g)->v && !(g)->rc) (g)->rc = (call); } while (0)
#define GEN_MAXC 8
// GEN_LONG: one sequence of that many coordinates; GEN_LONGP: one polygon, multi geometry or collection of that many
// small parts.  Few of the ordinates of those are symbolic.
static int gen_longs, gen_small, gen_smalls;
static int gen_ncoords(struct gen* g, int lo, const char* name) {
  if (gen_small) return 1 + gen_smalls % 2;
#ifdef GEN_LONG
  if (gen_longs == 0 && sx_choose(0, 1, "long")) { gen_longs++; return GEN_LONG; }
#endif
  return sx_choose(lo, g->maxc, name);
}
static int gen_nparts(struct gen* g, int lo, int* small) {
  *small = 0;
  if (gen_small) return 1;
#ifdef GEN_LONGP
  if (gen_longs == 0 && sx_choose(0, 1, "many")) { gen_longs++; *small = 1; return GEN_LONGP; }
#endif
  return sx_choose(lo, g->maxp, "nparts");
}
static int gen_split(int n) {
  if (n <= GEN_MAXC) return sx_choose(0, n - 1, "split");
  switch (sx_choose(0, 3, "split")) { case 0: return 0; case 1: return 1; case 2: return n / 2; default: return n - 1; }
}
static void gen_seq(struct gen* g, int dim, int n) {
  int nd = gen_nd(dim);
  int layout = g->layout == 2 && n > 0 && !gen_small ? sx_choose(0, 1, "layout") : g->layout & 1;
  int first = g->split && n > 1 && !gen_small ? gen_split(n) : 0;
  double* buf = (double*)malloc((size_t)n * nd * sizeof(double) + 1);
#ifdef GEN_FEW
  int at = n > GEN_MAXC ? sx_choose(0, 2, "at") * (n - 1) / 2 : 0;
#endif
  for (int i = 0; i < n; i++) {
    uint64_t b[4];
    for (int j = 0; j < nd; j++) {
      double d;
      if (g->value) g->value(&d, i * nd + j);
      else if (gen_small) { if (j == 0 && gen_smalls % 64 == 0) sx_make_symbolic(&d, 8, "ord"); else d = gen_smalls + 0.5 * j; gen_smalls++; }
#ifdef GEN_FEW  // one coordinate symbolic, and no order in the others
      else if (n > GEN_MAXC && i != at) d = (i * 7 % 11 - 5) * 2.5 + j;
#endif
      else if (n > GEN_MAXC && i % 60 != 3 && i != n - 1) d = i + 0.25 * j;
      else sx_make_symbolic(&d, 8, "ord");
      memcpy(&b[j], &d, 8);
      buf[layout ? j * n + i : i * nd + j] = d;
    }
    ev_c(g->ref, (uint32_t)nd, b);
  }
  int start = 0;
  for (int part = 0; part < 2; part++) {
    int cnt = part == 0 ? first : n - first;
    if (cnt > 0) {
      struct GeoArrowCoordView cv;
      memset(&cv, 0, sizeof(cv));
      cv.n_coords = cnt;
      cv.n_values = nd;
      cv.coords_stride = layout ? 1 : nd;
      for (int j = 0; j < nd; j++) cv.values[j] = layout ? buf + j * n + start : buf + start * nd + j;
      GEN_CALL(g, g->v->coords(g->v, &cv));
    }
    start += cnt;
  }
  free(buf);
}
static void gen_geom(struct gen* g, int type, int dim, int depth) {
  ev_gs(g->ref, (uint32_t)type, (uint32_t)dim);
  GEN_CALL(g, g->v->geom_start(g->v, (enum GeoArrowGeometryType)type, (enum GeoArrowDimensions)dim));
  int lo = g->noempty ? 1 : 0;
  if (type == 1) {
    gen_seq(g, dim, gen_small ? 1 : sx_choose(lo, 1, "npoint"));
  } else if (type == 2) {
    gen_seq(g, dim, gen_ncoords(g, lo, "nline"));
  } else {
    int small, n = gen_nparts(g, lo, &small);
    gen_small += small;
    for (int i = 0; i < n; i++) {
      if (type == 3) {
        ev_add(g->ref, EV_RS);
        GEN_CALL(g, g->v->ring_start(g->v));
        gen_seq(g, dim, gen_ncoords(g, lo, "nring"));
        ev_add(g->ref, EV_RE);
        GEN_CALL(g, g->v->ring_end(g->v));
      } else if (type < 7) {
        gen_geom(g, type - 3, dim, depth + 1);
      } else if (gen_small) {
        gen_geom(g, 1 + gen_smalls % 2, dim, depth + 1);
      } else {
#ifdef MIXDIM  // members of collections have dimensions of their own
        int childdim = sx_choose(1, 4, "childdim");
        gen_geom(g, sx_choose(1, depth < g->maxdepth ? 7 : MIXDIM, "child"), childdim, depth + 1);
#else
        gen_geom(g, sx_choose(1, depth < g->maxdepth ? 7 : 6, "child"), dim, depth + 1);
#endif
      }
    }
    gen_small -= small;
  }
  ev_add(g->ref, EV_GE);
  GEN_CALL(g, g->v->geom_end(g->v));
}
// one feature: null or a geometry of the given type (0: any) and dimensions
static void gen_feature(struct gen* g, int type, int dim, int maybe_null) {
  ev_add(g->ref, EV_FS);
  GEN_CALL(g, g->v->feat_start(g->v));
  if (maybe_null && sx_choose(0, 1, "null")) {
    ev_add(g->ref, EV_NULL);
    GEN_CALL(g, g->v->null_feat(g->v));
  } else {
    gen_geom(g, type ? type : sx_choose(1, 7, "type"), dim, 0);
  }
  ev_add(g->ref, EV_FE);
  GEN_CALL(g, g->v->feat_end(g->v));
}
// Deliver recorded events to a visitor, consecutive coordinates in one coords() call (or one call each).
// After EAGAIN the rest of the feature up to its end is skipped, as readers do.
static int ev_play(const struct evlist* l, struct GeoArrowVisitor* v, int one_each) {
  int skip = 0, rc = 0;
  for (int i = 0; i < l->n; i++) {
    const struct ev* e = &l->e[i];
    if (skip && e->op != EV_FE) continue;
    skip = 0;
    switch (e->op) {
      case EV_FS: rc = v->feat_start(v); break;
      case EV_NULL: rc = v->null_feat(v); break;
      case EV_GS: rc = v->geom_start(v, (enum GeoArrowGeometryType)e->gt, (enum GeoArrowDimensions)e->dim); break;
      case EV_RS: rc = v->ring_start(v); break;
      case EV_RE: rc = v->ring_end(v); break;
      case EV_GE: rc = v->geom_end(v); break;
      case EV_FE: rc = v->feat_end(v); break;
      case EV_C: {
        int n = 1;
        while (!one_each && i + n < l->n && l->e[i + n].op == EV_C) n++;
        int nd = (int)e->nv;
        double buf[EV_MAX * 4];
        for (int k = 0; k < n; k++) memcpy(buf + k * nd, l->e[i + k].v, 8 * nd);
        struct GeoArrowCoordView cv;
        memset(&cv, 0, sizeof(cv));
        cv.n_coords = n;
        cv.n_values = nd;
        cv.coords_stride = nd;
        for (int j = 0; j < nd; j++) cv.values[j] = buf + j;
        rc = v->coords(v, &cv);
        i += n - 1;
      }
    }
    if (rc == EAGAIN) { skip = 1; rc = 0; }
    if (rc) return rc;
  }
  return 0;
}
// keep the events of feature number k of src in dst (with its FS and FE)
static void ev_feature(const struct evlist* src, int k, struct evlist* dst) {
  int f = -1;
  dst->n = dst->overflow = 0;
  for (int i = 0; i < src->n; i++) {
    if (src->e[i].op == EV_FS) f++;
    if (f == k && dst->n < EV_MAX) dst->e[dst->n++] = src->e[i];
  }
}
static int ev_has(const struct evlist* l, int op) {
  for (int i = 0; i < l->n; i++) if (l->e[i].op == op) return 1;
  return 0;
}
// As WKB has no empty point, it is written with NaN ordinates.
static void ev_nan_points(const struct evlist* src, struct evlist* dst) {
  dst->n = dst->overflow = 0;
  for (int i = 0; i < src->n; i++) {
    if (dst->n + 2 > EV_MAX) { dst->overflow = 1; return; }
    dst->e[dst->n++] = src->e[i];
    if (src->e[i].op == EV_GS && src->e[i].gt == 1 && i + 1 < src->n && src->e[i + 1].op == EV_GE) {
      uint64_t nan4[4] = {0x7ff8000000000000ull, 0x7ff8000000000000ull, 0x7ff8000000000000ull, 0x7ff8000000000000ull};
      ev_c(dst, (uint32_t)gen_nd((int)src->e[i].dim), nan4);
    }
  }
}
#endif
