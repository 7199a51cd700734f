// Exporting an arbitrary node list of NN nodes: memory-safe; accepted exactly when the tree is consistent.
#include "ev.h"
#ifndef NN
#define NN 3
#endif
#define MAXSEQ 2
static struct evlist got;
// consistent subtree starting at node i: returns the index after it, or -1
static int ref_tree(const struct GeoArrowGeometryNode* n, int i, int size) {
  if (i >= size) return -1;
  int t = n[i].geometry_type;
  if (t < 1 || t > 7) return -1;
  if (t <= 2) return i + 1;
  uint32_t k = n[i].size;
  if (k > (uint32_t)(size - i - 1)) return -1;
  int j = i + 1;
  for (uint32_t c = 0; c < k; c++) {
    if (t == 3) j++;
    else j = ref_tree(n, j, size);
    if (j < 0) return -1;
  }
  return j;
}
// children of the kind their parent requires
static int ref_typed(const struct GeoArrowGeometryNode* n, int i, int parent) {
  int t = n[i].geometry_type;
  if (parent >= 4 && parent <= 6 && t != parent - 3) return -1;
  if (t <= 2) return t == 1 && n[i].size > 1 ? -1 : i + 1;
  int j = i + 1;
  for (uint32_t c = 0; c < n[i].size; c++) {
    if (t == 3) { if (n[j].geometry_type != 2 || n[j].dimensions != n[i].dimensions) return -1; j++; }
    else j = ref_typed(n, j, t);
    if (j < 0) return -1;
  }
  return j;
}
int sx_main(void) {
  struct GeoArrowGeometryNode* n = (struct GeoArrowGeometryNode*)malloc(sizeof(*n) * NN);
  double* xy = (double*)malloc(8 * 4 * MAXSEQ);
  sx_make_symbolic(xy, 8 * 4 * MAXSEQ, "xy");
  for (int i = 0; i < NN; i++) {
    memset(&n[i], 0, sizeof(n[i]));
    n[i].geometry_type = sx_u8("type");
    n[i].dimensions = sx_u8("dim");
    n[i].flags = sx_u8("flags");
    n[i].level = sx_u8("level");
    n[i].size = sx_u32("size");
#ifdef DIMS
    sx_assume(n[i].dimensions == DIMS);
#else
    sx_assume(n[i].dimensions <= 5);
#endif
    for (int j = 0; j < 4; j++) { n[i].coords[j] = (uint8_t*)(xy + j); n[i].coord_stride[j] = 32; }
    // a node that may be read as a sequence has its coordinates present
    sx_assume(n[i].size <= MAXSEQ || (n[i].geometry_type >= 3 && (i == 0 || n[i - 1].geometry_type != 3)));
#if NN > 2
    if (i > 1) sx_assume(n[i].size <= MAXSEQ || n[i - 2].geometry_type != 3);
#endif
#if NN > 3
    if (i > 2) sx_assume(n[i].size <= MAXSEQ || n[i - 3].geometry_type != 3);
#endif
#if NN > 4
    if (i > 3) sx_assume(n[i].size <= MAXSEQ || n[i - 4].geometry_type != 3);
#endif
  }
  struct GeoArrowError err;
  err.message[0] = 0;
  struct GeoArrowVisitor v;
  ev_visitor(&got, &v, &err);
#ifdef OWNED  // through the owning type, whose fields the user may set
  struct GeoArrowGeometry geom;
  memset(&geom, 0, sizeof(geom));
  geom.root = n;
  geom.size_nodes = NN;
  int rc = GeoArrowGeometryVisit(&geom, &v);
#else
  struct GeoArrowGeometryView view = {n, NN};
  int rc = GeoArrowGeometryViewVisit(view, &v);
#endif
  sx_observe((uint64_t)rc);
  int dims_ok = 1;
  for (int i = 0; i < NN; i++) dims_ok &= n[i].dimensions >= 1 && n[i].dimensions <= 4;
  if (ref_tree(n, 0, NN) == NN) {
    if (dims_ok) {
      SX_ASSERT(rc == 0, "consistent tree is accepted");
      if (ref_typed(n, 0, 0) == NN) {
        SX_ASSERT(ev_well_formed(&got) || got.overflow, "events are correctly nested");
        sx_cover("typed");
      }
      sx_cover("accepted");
    }
  } else {
    SX_ASSERT(rc != 0, "inconsistent tree is refused");
    sx_cover("refused");
  }
  free(xy);
  free(n);
  return 0;
}
