// A geometry value built from any well-formed event sequence exports the same events.
//   MODE 0: one feature   MODE 1: a second feature on a reused geometry   MODE 2: one sequence of LONG coordinates
#include "gen.h"
#ifndef TYPE
#define TYPE 0
#endif
#ifndef DIM
#define DIM 1
#endif
#ifndef MAXC
#define MAXC 2
#endif
#ifndef MAXP
#define MAXP 2
#endif
#ifndef DEPTH
#define DEPTH 1
#endif
#ifndef MODE
#define MODE 0
#endif
#ifndef TYPE1
#define TYPE1 TYPE
#endif
#ifndef DIM1
#define DIM1 DIM
#endif
static struct evlist ref, got;
int sx_main(void) {
  int live0 = sx_live_allocs();
  struct GeoArrowGeometry geom;
  struct GeoArrowVisitor v, rec;
  struct GeoArrowError err;
  if (GeoArrowGeometryInit(&geom)) return 1;
  GeoArrowVisitorInitVoid(&v);
  GeoArrowGeometryInitVisitor(&geom, &v);
  v.error = &err;
  struct gen g = {&v, &ref, MAXC, MAXP, 2, 1, 0, 0, DEPTH, NULL};
#if MODE == 1
  gen_feature(&g, TYPE1, DIM1, 0);
#endif
  ref.n = ref.overflow = 0;
#if MODE == 2
  ev_add(&ref, EV_FS);
  v.feat_start(&v);
  ev_gs(&ref, 2, DIM);
  v.geom_start(&v, GEOARROW_GEOMETRY_TYPE_LINESTRING, DIM);
  gen_seq(&g, DIM, LONG);
  ev_add(&ref, EV_GE);
  v.geom_end(&v);
  ev_add(&ref, EV_FE);
  v.feat_end(&v);
#else
  gen_feature(&g, TYPE, DIM, 0);
#endif
  SX_ASSERT(g.rc == 0, "well-formed events are accepted");
  ev_visitor(&got, &rec, &err);
  int rc = GeoArrowGeometryVisit(&geom, &rec);
  SX_ASSERT(rc == 0, "the built geometry exports");
  ev_assert_same(&got, &ref, "export");
  ev_visitor(&got, &rec, &err);
  rc = GeoArrowGeometryViewVisit(GeoArrowGeometryAsView(&geom), &rec);
  SX_ASSERT(rc == 0, "its view exports");
  ev_assert_same(&got, &ref, "export view");
  ev_observe(&got);
  if (ev_has(&ref, EV_C)) sx_cover("coords"); else sx_cover("empty");
  GeoArrowGeometryReset(&geom);
  SX_ASSERT(sx_live_allocs() <= live0, "no leak");
  return 0;
}
