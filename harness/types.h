// Independent description of the GeoArrow types: identifier <-> parts, extension names, storage.
#ifndef TYPES_H
#define TYPES_H
#include <errno.h>
#include <stdlib.h>
#include <string.h>
#include "geoarrow/geoarrow.h"
#include "nanoarrow/nanoarrow.h"
#include "sx.h"
#define NTYPES 58
struct tdesc { int id, gt, dim, coord; };  // gt 1..6, 990; 0 for serialized types
static struct tdesc tdesc_of(int k) {
  struct tdesc t = {0, 0, 0, 0};
  if (k < 48) {
    t.gt = k % 6 + 1;
    t.dim = (k / 6) % 4 + 1;
    t.coord = k / 24 + 1;
    t.id = t.gt + 1000 * (t.dim - 1) + 10000 * (t.coord - 1);
  } else if (k < 52) {
    t.gt = 990;
    t.dim = k - 48 + 1;
    t.coord = 1;
    t.id = 990 + 1000 * (t.dim - 1);
  } else {
    t.id = 100001 + (k - 52);
  }
  return t;
}
static const char* t_ext(struct tdesc t) {
  static const char* const n[] = {0, "geoarrow.point", "geoarrow.linestring", "geoarrow.polygon", "geoarrow.multipoint", "geoarrow.multilinestring", "geoarrow.multipolygon"};
  if (t.gt == 990) return "geoarrow.box";
  if (t.gt) return n[t.gt];
  return t.id == 100001 || t.id == 100002 || t.id == 100005 ? "geoarrow.wkb" : "geoarrow.wkt";
}
static const char* t_dims(int dim) { return dim == 1 ? "xy" : dim == 2 ? "xyz" : dim == 3 ? "xym" : "xyzm"; }
static int t_nd(int dim) { return dim == 1 ? 2 : dim == 4 ? 4 : 3; }
static int seq(const char* a, const char* b) { return a && b && strcmp(a, b) == 0; }
static int seqn(const char* a, int64_t n, const char* b) { return (int64_t)strlen(b) == n && memcmp(a, b, (size_t)n) == 0; }
static int isdouble(const struct ArrowSchema* s) { return seq(s->format, "g"); }
static int t_depth(int gt) { return gt == 1 ? 0 : gt == 2 || gt == 4 ? 1 : gt == 3 || gt == 5 ? 2 : 3; }
// the storage described by s, read as extension name ext: identifier of the type, 0 when there is none
static int ref_type(const struct ArrowSchema* s, const char* ext, int64_t n) {
  if (seqn(ext, n, "geoarrow.wkb")) return seq(s->format, "z") ? 100001 : seq(s->format, "Z") ? 100002 : seq(s->format, "vz") ? 100005 : 0;
  if (seqn(ext, n, "geoarrow.wkt")) return seq(s->format, "u") ? 100003 : seq(s->format, "U") ? 100004 : seq(s->format, "vu") ? 100006 : 0;
  if (seqn(ext, n, "geoarrow.box")) {
    if (!seq(s->format, "+s")) return 0;
    for (int d = 1; d <= 4; d++) {
      int k = t_nd(d), ok = s->n_children == 2 * k;
      for (int i = 0; ok && i < 2 * k; i++) {
        char nm[5] = {t_dims(d)[i % k], 'm', i < k ? 'i' : 'a', i < k ? 'n' : 'x', 0};
        ok = isdouble(s->children[i]) && seq(s->children[i]->name, nm);
      }
      if (ok) return 990 + 1000 * (d - 1);
    }
    return 0;
  }
  for (int gt = 1; gt <= 6; gt++) {
    struct tdesc t = {0, gt, 0, 0};
    if (!seqn(ext, n, t_ext(t))) continue;
    for (int i = 0; i < t_depth(gt); i++) {
      if (!seq(s->format, "+l") || s->n_children != 1) return 0;
      s = s->children[0];
    }
    if (seq(s->format, "+s")) {
      for (int d = 1; d <= 4; d++) {
        int ok = s->n_children == t_nd(d);
        for (int i = 0; ok && i < t_nd(d); i++) {
          char nm[2] = {t_dims(d)[i], 0};
          ok = isdouble(s->children[i]) && seq(s->children[i]->name, nm);
        }
        if (ok) return gt + 1000 * (d - 1);
      }
      return 0;
    }
    if (strlen(s->format) < 4 || memcmp(s->format, "+w:", 3) != 0 || s->n_children != 1 || !isdouble(s->children[0])) return 0;
    int w = 0;
    for (const char* p = s->format + 3; *p; p++) {
      if (*p < '0' || *p > '9' || w > 100000) return 0;
      w = w * 10 + (*p - '0');
    }
    for (int d = 1; d <= 4; d++)
      if (seq(s->children[0]->name, t_dims(d))) return w == t_nd(d) ? gt + 1000 * (d - 1) + 10000 : 0;
    // other names: the width alone decides, 3 meaning xyz
    return w == 2 ? gt + 10000 : w == 3 ? gt + 11000 : w == 4 ? gt + 13000 : 0;
  }
  return 0;
}
#endif
