// Independent reading of Arrow arrays of the native GeoArrow types, straight from the Arrow columnar format.
#ifndef AREF_H
#define AREF_H
#include "gen.h"
#include "nanoarrow/nanoarrow.h"
static int aref_depth(int gt) { return gt == 1 || gt == 990 ? 0 : gt == 2 || gt == 4 ? 1 : gt == 3 || gt == 5 ? 2 : 3; }
static int aref_null(const struct ArrowArray* a, int64_t i) {
  const uint8_t* b = (const uint8_t*)a->buffers[0];
  i += a->offset;
  return b && !((b[i >> 3] >> (i & 7)) & 1);
}
static void aref_coord(const struct ArrowArray* a, int dim, int coord, int64_t i, struct evlist* out) {
  int nd = gen_nd(dim);
  uint64_t v[4];
  for (int j = 0; j < nd; j++) {
    const struct ArrowArray* c = a->children[coord == 1 ? j : 0];
    int64_t k = a->offset + i;
    if (coord != 1) k = k * nd + j;
    memcpy(&v[j], (const char*)c->buffers[1] + 8 * (c->offset + k), 8);
  }
  ev_c(out, (uint32_t)nd, v);
}
static void aref_list(const struct ArrowArray* a, int64_t i, int64_t* lo, int64_t* hi) {
  const int32_t* o = (const int32_t*)a->buffers[1];
  *lo = o[a->offset + i];
  *hi = o[a->offset + i + 1];
}
static void aref_geom(const struct ArrowArray* a, int gt, int dim, int coord, int64_t i, struct evlist* out) {
  ev_gs(out, (uint32_t)gt, (uint32_t)dim);
  int64_t lo, hi;
  if (gt == 1) {
    aref_coord(a, dim, coord, i, out);
  } else {
    aref_list(a, i, &lo, &hi);
    for (int64_t k = lo; k < hi; k++) {
      const struct ArrowArray* c = a->children[0];
      if (gt == 2) aref_coord(c, dim, coord, k, out);
      else if (gt == 3) {
        int64_t l2, h2;
        ev_add(out, EV_RS);
        aref_list(c, k, &l2, &h2);
        for (int64_t m = l2; m < h2; m++) aref_coord(c->children[0], dim, coord, m, out);
        ev_add(out, EV_RE);
      } else aref_geom(c, gt - 3, dim, coord, k, out);
    }
  }
  ev_add(out, EV_GE);
}
static void aref_feature(const struct ArrowArray* a, int gt, int dim, int coord, int64_t i, struct evlist* out) {
  ev_add(out, EV_FS);
  if (aref_null(a, i)) ev_add(out, EV_NULL);
  else aref_geom(a, gt, dim, coord, i, out);
  ev_add(out, EV_FE);
}
// The array is a valid Arrow array of the type: buffers, child lengths, offsets, null count.
static int aref_valid(const struct ArrowArray* a, int gt, int coord, int dim, int root) {
  int depth = aref_depth(gt), nd = gen_nd(dim);
  for (int l = 0;; l++) {
    if (a->length < 0 || a->offset < 0 || a->null_count < -1 || a->null_count > a->length || a->dictionary) return 0;
    if (root && l == 0 && a->null_count >= 0) {
      int64_t nn = 0;
      for (int64_t i = 0; i < a->length; i++) nn += aref_null(a, i);
      if (nn != a->null_count) return 0;
    } else if (l > 0 && a->null_count > 0) return 0;
    if (a->buffers[0] && !sx_accessible(a->buffers[0], (uint64_t)((a->offset + a->length + 7) / 8))) return 0;
    if (l == depth) break;
    if (a->n_buffers != 2 || a->n_children != 1) return 0;
    const int32_t* o = (const int32_t*)a->buffers[1];
    if (a->length + a->offset > 0 || o) {
      if (!sx_accessible(o, (uint64_t)(a->offset + a->length + 1) * 4)) return a->length == 0;
      if (o[0] < 0) return 0;
      for (int64_t i = 0; i < a->offset + a->length; i++) if (o[i + 1] < o[i]) return 0;
      if (o[a->offset + a->length] > a->children[0]->length) return 0;
    }
    a = a->children[0];
  }
  if (a->n_buffers != 1) return 0;
  if (a->n_children != (gt == 990 ? 2 * nd : coord == 1 ? nd : 1)) return 0;
  for (int64_t j = 0; j < a->n_children; j++) {
    const struct ArrowArray* c = a->children[j];
    int64_t need = (a->offset + a->length) * (coord == 1 ? 1 : nd);
    if (c->n_buffers != 2 || c->n_children != 0 || c->length < need || c->null_count > 0) return 0;
    if (need && !sx_accessible(c->buffers[1], (uint64_t)(c->offset + need) * 8)) return 0;
  }
  return 1;
}
#endif
