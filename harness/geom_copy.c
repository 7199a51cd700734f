// Copies of any geometry view.  MODE 0: deep copy (source freed afterwards), MODE 1: shallow copy.
// OLD=1: the destination already holds another geometry.
#include "nodes.h"
#ifndef TYPE
#define TYPE 0
#endif
#ifndef DIM
#define DIM 1
#endif
#ifndef MAXC
#define MAXC 2
#endif
#ifndef MAXP
#define MAXP 2
#endif
#ifndef DEPTH
#define DEPTH 1
#endif
#ifndef MODE
#define MODE 0
#endif
static struct evlist ref, got, ref2;
static struct nodelist src, old;
int sx_main(void) {
  int live0 = sx_live_allocs();
  struct GeoArrowError err;
  struct GeoArrowVisitor rec;
  struct GeoArrowGeometry dst;
  if (GeoArrowGeometryInit(&dst)) return 1;
#ifdef OLD
  old.maxc = old.maxp = 1;
  nl_geom(&old, &ref2, OLD, 4, 0);
  struct GeoArrowGeometryView ov = {old.n, old.size};
  SX_ASSERT(GeoArrowGeometryDeepCopy(ov, &dst) == 0, "first copy");
  nl_free(&old);
#endif
  src.maxc = MAXC; src.maxp = MAXP; src.maxdepth = DEPTH; src.swapmode = 1;
  ev_add(&ref, EV_FS);
  nl_geom(&src, &ref, TYPE ? TYPE : sx_choose(1, 7, "type"), DIM, 0);
  ev_add(&ref, EV_FE);
  struct GeoArrowGeometryView sv = {src.n, src.size};
#ifdef AGAIN
  // copy of a copy
  struct GeoArrowGeometry mid;
  if (GeoArrowGeometryInit(&mid)) return 1;
  SX_ASSERT(GeoArrowGeometryDeepCopy(sv, &mid) == 0, "copies");
  nl_free(&src);
  sv = GeoArrowGeometryAsView(&mid);
#endif
#if MODE == 0
  int rc = GeoArrowGeometryDeepCopy(sv, &dst);
#else
  int rc = GeoArrowGeometryShallowCopy(sv, &dst);
#endif
  SX_ASSERT(rc == 0, "copies");
#if MODE == 0
#ifdef AGAIN
  GeoArrowGeometryReset(&mid);
#else
  nl_free(&src);
#endif
  memset(src.n, 0xa5, sizeof(src.n));
#else
  memset(src.n, 0xa5, sizeof(src.n));
#endif
  ev_visitor(&got, &rec, &err);
  rc = GeoArrowGeometryVisit(&dst, &rec);
  SX_ASSERT(rc == 0, "the copy exports");
  ev_assert_same(&got, &ref, "copy");
  ev_observe(&got);
  if (ev_has(&ref, EV_C)) sx_cover("coords"); else sx_cover("empty");
#if MODE == 1
  nl_free(&src);
#endif
  GeoArrowGeometryReset(&dst);
  SX_ASSERT(sx_live_allocs() <= live0, "no leak");
  return 0;
}
