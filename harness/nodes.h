// Symbolic generator of consistent geometry node lists over coordinates that
// live in their own heap blocks: interleaved, separated or strided, in either
// byte order; the expected events are recorded alongside.
#ifndef NODES_H
#define NODES_H
#include "gen.h"
#ifndef NODES_MAX
#define NODES_MAX 40
#endif
struct nodelist { struct GeoArrowGeometryNode n[NODES_MAX]; int size; void* blocks[NODES_MAX]; int nb; int maxc, maxp, maxdepth; int swapmode; };
static void nl_seq(struct nodelist* l, struct evlist* ref, struct GeoArrowGeometryNode* nd, int dim, int n) {
  int nv = gen_nd(dim);
  nd->size = (uint32_t)n;
  int lay = gen_small ? gen_smalls % 3 : n ? sx_choose(0, 2, "layout") : 0;
  int swap = n && l->swapmode ? gen_small ? gen_smalls & 1 : sx_choose(0, 1, "swap") : 0;
  if (gen_small) gen_smalls++;
  nd->flags = swap ? GEOARROW_GEOMETRY_NODE_FLAG_SWAP_ENDIAN : 0;
  // 0: interleaved; 1: separated; 2: odd padding and unaligned start
  int es = 8, cs = lay == 0 ? nv * 8 : lay == 1 ? 8 : nv * 8 + 3;
  int off = lay == 2 ? 1 : 0;
  if (lay == 1) es = n * 8;
  int total = lay == 2 ? off + n * cs : n * nv * 8;
  uint8_t* p = (uint8_t*)malloc((size_t)(total ? total : 1));
  l->blocks[l->nb++] = p;
  for (int j = 0; j < nv; j++) {
    nd->coords[j] = p + off + j * es;
    nd->coord_stride[j] = cs;
  }
  for (int i = 0; i < n; i++) {
    uint64_t v[4];
    for (int j = 0; j < nv; j++) {
      uint64_t b = (gen_small && gen_smalls % 32) || (n > GEN_MAXC && i % 60 != 3 && i != n - 1) ? 0x3ff0123456789abcull + (uint64_t)(l->nb * 1000 + i * 7 + j) : sx_u64("ord");
      v[j] = b;
      if (swap) b = __builtin_bswap64(b);
      memcpy(p + off + j * es + i * cs, &b, 8);
    }
    if (ref) ev_c(ref, (uint32_t)nv, v);
  }
}
static struct GeoArrowGeometryNode* nl_add(struct nodelist* l, int type, int dim, int level) {
  struct GeoArrowGeometryNode* nd = &l->n[l->size++];
  memset(nd, 0, sizeof(*nd));
  nd->geometry_type = (uint8_t)type;
  nd->dimensions = (uint8_t)dim;
  nd->level = (uint8_t)level;
  return nd;
}
static int nl_ncoords(struct nodelist* l, const char* name) {
  struct gen g = {.maxc = l->maxc};
  return gen_ncoords(&g, 0, name);
}
static void nl_geom(struct nodelist* l, struct evlist* ref, int type, int dim, int level) {
  struct GeoArrowGeometryNode* nd = nl_add(l, type, dim, level);
  ev_gs(ref, (uint32_t)type, (uint32_t)dim);
  if (type == 1) nl_seq(l, ref, nd, dim, gen_small ? 1 : sx_choose(0, 1, "npoint"));
  else if (type == 2) nl_seq(l, ref, nd, dim, nl_ncoords(l, "nline"));
  else {
    struct gen g = {.maxp = l->maxp};
    int small, n = gen_nparts(&g, 0, &small);
    gen_small += small;
    nd->size = (uint32_t)n;
    for (int i = 0; i < n; i++) {
      if (type == 3) {
        ev_add(ref, EV_RS);
        struct GeoArrowGeometryNode* r = nl_add(l, 2, dim, level + 1);
        nl_seq(l, ref, r, dim, nl_ncoords(l, "nring"));
        ev_add(ref, EV_RE);
      } else if (type < 7) nl_geom(l, ref, type - 3, dim, level + 1);
      else if (gen_small) nl_geom(l, ref, 1 + gen_smalls % 2, dim, level + 1);
#ifdef MIXDIM  // members of collections have dimensions of their own
      else {
        int childdim = sx_choose(1, 4, "childdim");
        nl_geom(l, ref, sx_choose(1, level < l->maxdepth ? 7 : MIXDIM, "child"), childdim, level + 1);
      }
#else
      else nl_geom(l, ref, sx_choose(1, level < l->maxdepth ? 7 : 6, "child"), dim, level + 1);
#endif
    }
    gen_small -= small;
  }
  ev_add(ref, EV_GE);
}
static void nl_free(struct nodelist* l) {
  // what a shallow reader must not touch any more
  for (int i = 0; i < l->nb; i++) free(l->blocks[i]);
  l->nb = 0;
}
#endif
