// Recording and comparing visitor events in a canonical form: one event per
// coordinate, whatever the grouping of the coords() calls.
#ifndef EV_H
#define EV_H
#include <errno.h>
#include <stdlib.h>
#include <string.h>
#include "geoarrow/geoarrow.h"
#include "sx.h"

enum { EV_FS = 1, EV_NULL, EV_GS, EV_RS, EV_C, EV_RE, EV_GE, EV_FE };
struct ev { uint8_t op; uint32_t gt, dim; uint32_t nv; uint64_t v[4]; };
#ifndef EV_MAX
#define EV_MAX 160
#endif
struct evlist { int n; int overflow; struct ev e[EV_MAX]; };

static struct ev* ev_add(struct evlist* l, int op) {
  if (l->n >= EV_MAX) { l->overflow = 1; return NULL; }
  struct ev* e = &l->e[l->n++];
  e->op = (uint8_t)op; e->gt = e->dim = e->nv = 0;
  e->v[0] = e->v[1] = e->v[2] = e->v[3] = 0;
  return e;
}
static void ev_gs(struct evlist* l, uint32_t gt, uint32_t dim) {
  struct ev* e = ev_add(l, EV_GS);
  if (e) { e->gt = gt; e->dim = dim; }
}
static void ev_c(struct evlist* l, uint32_t nv, const uint64_t* v) {
  struct ev* e = ev_add(l, EV_C);
  if (!e) return;
  e->nv = nv;
  for (uint32_t i = 0; i < nv && i < 4; i++) e->v[i] = v[i];
}

// recording visitor
static int ev_v_fs(struct GeoArrowVisitor* v) { ev_add((struct evlist*)v->private_data, EV_FS); return 0; }
static int ev_v_null(struct GeoArrowVisitor* v) { ev_add((struct evlist*)v->private_data, EV_NULL); return 0; }
static int ev_v_gs(struct GeoArrowVisitor* v, enum GeoArrowGeometryType t, enum GeoArrowDimensions d) {
  ev_gs((struct evlist*)v->private_data, (uint32_t)t, (uint32_t)d);
  return 0;
}
static int ev_v_rs(struct GeoArrowVisitor* v) { ev_add((struct evlist*)v->private_data, EV_RS); return 0; }
static int ev_v_c(struct GeoArrowVisitor* v, const struct GeoArrowCoordView* c) {
  struct evlist* l = (struct evlist*)v->private_data;
  for (int64_t i = 0; i < c->n_coords; i++) {
    uint64_t b[4];
    for (int j = 0; j < c->n_values && j < 4; j++) {
      double d = GEOARROW_COORD_VIEW_VALUE(c, i, j);
      memcpy(&b[j], &d, 8);
    }
    ev_c(l, (uint32_t)c->n_values, b);
  }
  return 0;
}
static int ev_v_re(struct GeoArrowVisitor* v) { ev_add((struct evlist*)v->private_data, EV_RE); return 0; }
static int ev_v_ge(struct GeoArrowVisitor* v) { ev_add((struct evlist*)v->private_data, EV_GE); return 0; }
static int ev_v_fe(struct GeoArrowVisitor* v) { ev_add((struct evlist*)v->private_data, EV_FE); return 0; }
static void ev_visitor(struct evlist* l, struct GeoArrowVisitor* v, struct GeoArrowError* err) {
  l->n = 0; l->overflow = 0;
  GeoArrowVisitorInitVoid(v);
  v->private_data = l;
  v->error = err;
  v->feat_start = ev_v_fs; v->null_feat = ev_v_null; v->geom_start = ev_v_gs; v->ring_start = ev_v_rs;
  v->coords = ev_v_c; v->ring_end = ev_v_re; v->geom_end = ev_v_ge; v->feat_end = ev_v_fe;
}

// Assert that two event lists are the same (bit patterns of all ordinates).
static void ev_assert_same(const struct evlist* a, const struct evlist* b, const char* what) {
  (void)what;
  SX_ASSERT(!a->overflow && !b->overflow, "harness: event list large enough");
  SX_ASSERT(a->n == b->n, "same number of events");
  int ok = 1, okv = 1;
  int n = a->n < b->n ? a->n : b->n;
  for (int i = 0; i < n; i++) {
    ok &= (a->e[i].op == b->e[i].op) & (a->e[i].gt == b->e[i].gt) & (a->e[i].dim == b->e[i].dim) & (a->e[i].nv == b->e[i].nv);
    okv &= (a->e[i].v[0] == b->e[i].v[0]) & (a->e[i].v[1] == b->e[i].v[1]) & (a->e[i].v[2] == b->e[i].v[2]) & (a->e[i].v[3] == b->e[i].v[3]);
  }
  SX_ASSERT(ok, "same events: kind, type, dimensions");
  SX_ASSERT(okv, "same ordinates, bit for bit");
}
static void ev_observe(const struct evlist* a) {
  for (int i = 0; i < a->n; i++) {
    sx_observe(a->e[i].op);
    sx_observe(a->e[i].gt);
    sx_observe(a->e[i].dim);
    for (int j = 0; j < (int)a->e[i].nv && j < 4; j++) sx_observe(a->e[i].v[j]);
  }
}
// Well-nested event discipline of one or more features.
static int ev_well_formed(const struct evlist* l) {
  int depth = 0, infeat = 0, ring = 0, isnull = 0, nroots = 0;
  uint32_t types[40], dims[40], nc[40];
  for (int i = 0; i < l->n; i++) {
    const struct ev* e = &l->e[i];
    switch (e->op) {
      case EV_FS: if (infeat) return 0; infeat = 1; isnull = 0; nroots = 0; depth = 0; break;
      case EV_NULL: if (!infeat || depth || nroots || isnull) return 0; isnull = 1; break;
      case EV_GS:
        if (!infeat || isnull || ring || depth >= 38) return 0;
        if (depth == 0 && nroots++) return 0;
        if (e->gt < 1 || e->gt > 7 || e->dim < 1 || e->dim > 4) return 0;
        if (depth > 0) {
          uint32_t p = types[depth];
          if (p < 4) return 0;
          if (p < 7 && e->gt != p - 3) return 0;
        }
        depth++; types[depth] = e->gt; dims[depth] = e->dim; nc[depth] = 0;
        break;
      case EV_RS: if (!infeat || depth < 1 || ring || types[depth] != 3) return 0; ring = 1; break;
      case EV_C:
        if (!infeat || depth < 1) return 0;
        if (types[depth] == 3 ? !ring : types[depth] > 3) return 0;
        if (e->nv != (dims[depth] == 1 ? 2u : dims[depth] == 4 ? 4u : 3u)) return 0;
        if (types[depth] == 1 && ++nc[depth] > 1) return 0;
        break;
      case EV_RE: if (!ring) return 0; ring = 0; break;
      case EV_GE: if (depth < 1 || ring) return 0; depth--; break;
      case EV_FE: if (!infeat || depth || ring) return 0; infeat = 0; break;
    }
  }
  return !infeat;
}

// ---- independent WKB decoder (native events of one geometry) ----
struct wkbref { const uint8_t* p; uint32_t n, pos; int bad;  int deepest; };
static uint32_t wkbref_u32(struct wkbref* r, int le) {
  if (r->n - r->pos < 4) { r->bad = 1; return 0; }
  const uint8_t* q = r->p + r->pos;
  r->pos += 4;
  return le ? (uint32_t)q[0] | (uint32_t)q[1] << 8 | (uint32_t)q[2] << 16 | (uint32_t)q[3] << 24
            : (uint32_t)q[3] | (uint32_t)q[2] << 8 | (uint32_t)q[1] << 16 | (uint32_t)q[0] << 24;
}
static uint64_t wkbref_u64(const uint8_t* q, int le) {
  uint64_t v = 0;
  for (int i = 0; i < 8; i++) v |= (uint64_t)q[i] << (le ? 8 * i : 56 - 8 * i);
  return v;
}
static void wkbref_seq(struct wkbref* r, struct evlist* l, uint32_t n, uint32_t nd, int le) {
  if (n > (r->n - r->pos) / (8 * nd)) { r->bad = 1; return; }
  for (uint32_t i = 0; i < n; i++) {
    uint64_t v[4];
    for (uint32_t j = 0; j < nd; j++) { v[j] = wkbref_u64(r->p + r->pos, le); r->pos += 8; }
    ev_c(l, nd, v);
  }
}
static void wkbref_geom(struct wkbref* r, struct evlist* l, int depth) {
  if (r->pos >= r->n) { r->bad = 1; return; }
  int le = r->p[r->pos++] == 1;
  uint32_t t = wkbref_u32(r, le);
  if (r->bad) return;
  int z = (t & 0x80000000u) != 0, m = (t & 0x40000000u) != 0;
  if (t & 0x20000000u) wkbref_u32(r, le);
  if (r->bad) return;
  t &= 0xffff;
  if (t >= 3000) { t -= 3000; z = m = 1; }
  else if (t >= 2000) { t -= 2000; m = 1; }
  else if (t >= 1000) { t -= 1000; z = 1; }
  uint32_t dim = z && m ? 4 : z ? 2 : m ? 3 : 1;
  uint32_t nd = 2u + (uint32_t)z + (uint32_t)m;
  if (t < 1 || t > 7) { r->bad = 1; return; }
  uint32_t n = t == 1 ? 1 : wkbref_u32(r, le);
  if (r->bad) return;
  ev_gs(l, t, dim);
  if (t > 2 && depth > r->deepest) r->deepest = depth;  // level of the deepest geometry with parts
  if (t <= 2) wkbref_seq(r, l, n, nd, le);
  else if (t == 3) {
    for (uint32_t i = 0; i < n && !r->bad; i++) {
      uint32_t k = wkbref_u32(r, le);
      if (r->bad) return;
      ev_add(l, EV_RS);
      wkbref_seq(r, l, k, nd, le);
      ev_add(l, EV_RE);
    }
  } else {
    for (uint32_t i = 0; i < n && !r->bad; i++) wkbref_geom(r, l, depth + 1);
  }
  if (!r->bad) ev_add(l, EV_GE);
}
#endif
