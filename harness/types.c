// Type identifiers.  MODE 0: every combination of parts, MODE 1: every valid identifier, MODE 2: every 32-bit value,
// MODE 3: names of every 32-bit value of the other enumerations
#include "types.h"
#ifndef MODE
#define MODE 0
#endif
static int known(int id) {
  int r = 0;
  for (int k = 0; k < NTYPES; k++) r |= tdesc_of(k).id == id;
  return r;
}
int sx_main(void) {
  int live0 = sx_live_allocs();
#if MODE == 0
  int gt = sx_choose(0, 8, "geometry type");
  if (gt == 8) gt = 990;
  int dim = sx_choose(0, 4, "dimensions"), coord = sx_choose(0, 2, "coord type");
  int id = (int)GeoArrowMakeType((enum GeoArrowGeometryType)gt, (enum GeoArrowDimensions)dim, (enum GeoArrowCoordType)coord);
  int want = 0;
  for (int k = 0; k < 52; k++) {
    struct tdesc t = tdesc_of(k);
    if (t.gt == gt && t.dim == dim && t.coord == coord) want = t.id;
  }
  SX_ASSERT(id == want, "the identifier of the parts, or uninitialised when there is none");
  sx_observe((uint64_t)id);
  if (id) sx_cover("type");
  else sx_cover("none");
#elif MODE == 1
  struct tdesc t = tdesc_of(sx_choose(0, NTYPES - 1, "type"));
  enum GeoArrowType id = (enum GeoArrowType)t.id;
  SX_ASSERT((int)GeoArrowGeometryTypeFromType(id) == t.gt, "geometry type of the identifier");
  SX_ASSERT((int)GeoArrowDimensionsFromType(id) == t.dim, "dimensions of the identifier");
  SX_ASSERT((int)GeoArrowCoordTypeFromType(id) == t.coord, "coordinate layout of the identifier");
  SX_ASSERT(seq(GeoArrowExtensionNameFromType(id), t_ext(t)), "extension name of the identifier");
  if (t.gt) SX_ASSERT((int)GeoArrowMakeType((enum GeoArrowGeometryType)t.gt, (enum GeoArrowDimensions)t.dim, (enum GeoArrowCoordType)t.coord) == t.id, "parts give the identifier again");
  struct GeoArrowSchemaView v;
  memset(&v, 0x5a, sizeof(v));
  SX_ASSERT(GeoArrowSchemaViewInitFromType(&v, id) == 0, "view of the type");
  SX_ASSERT((int)v.type == t.id && (int)v.geometry_type == t.gt && (int)v.dimensions == t.dim && (int)v.coord_type == t.coord, "view has the parts");
  SX_ASSERT(seqn(v.extension_name.data, v.extension_name.size_bytes, t_ext(t)), "view has the extension name");
  SX_ASSERT(v.schema == NULL && v.extension_metadata.size_bytes == 0, "view has no schema or metadata");
  struct ArrowSchema s;
  SX_ASSERT(GeoArrowSchemaInit(&s, id) == 0, "schema is created");
  SX_ASSERT(ref_type(&s, t_ext(t), (int64_t)strlen(t_ext(t))) == t.id, "the storage of the type");
  s.release(&s);
  // names
  if (t.gt) {
    static const char* const names[] = {"GEOMETRY", "POINT", "LINESTRING", "POLYGON", "MULTIPOINT", "MULTILINESTRING", "MULTIPOLYGON"};
    SX_ASSERT(seq(GeoArrowGeometryTypeString((enum GeoArrowGeometryType)t.gt), t.gt == 990 ? "BOX" : names[t.gt]), "name of the geometry type");
    SX_ASSERT(seq(GeoArrowDimensionsString((enum GeoArrowDimensions)t.dim), t_dims(t.dim)), "name of the dimensions");
    SX_ASSERT(seq(GeoArrowCoordTypeString((enum GeoArrowCoordType)t.coord), t.coord == 1 ? "separate" : "interleaved"), "name of the layout");
  }
  sx_cover("type");
#elif MODE == 2
  int id = sx_i32("type");
  struct ArrowSchema s;
  memset(&s, 0x5a, sizeof(s));
  int rc = GeoArrowSchemaInitExtension(&s, (enum GeoArrowType)id);
  SX_ASSERT((rc == 0) == known(id), "a schema exists exactly for the GeoArrow types");
  if (rc == 0) {
    s.release(&s);
    sx_cover("type");
  } else {
    sx_cover("none");
  }
  struct GeoArrowSchemaView v;
  rc = GeoArrowSchemaViewInitFromType(&v, (enum GeoArrowType)id);
  int d = (int)GeoArrowDimensionsFromType((enum GeoArrowType)id), g = (int)GeoArrowGeometryTypeFromType((enum GeoArrowType)id), c = (int)GeoArrowCoordTypeFromType((enum GeoArrowType)id);
  SX_ASSERT(d >= 0 && d <= 4 && (g == 990 || (g >= 0 && g <= 6)) && c >= 0 && c <= 2, "parts are enumerators");
  if (known(id)) SX_ASSERT(rc == 0, "view of the type");
#elif MODE == 3
  static const char* const geoms[] = {"GEOMETRY", "POINT", "LINESTRING", "POLYGON", "MULTIPOINT", "MULTILINESTRING", "MULTIPOLYGON", "GEOMETRYCOLLECTION"};
  static const char* const layouts[] = {"unknown", "separate", "interleaved"};
  static const char* const dims[] = {"unknown", "xy", "xyz", "xym", "xyzm"};
  static const char* const edges[] = {"planar", "spherical", "vincenty", "thomas", "andoyer", "karney"};
  static const char* const crs[] = {"none", "unknown", "projjson", "wkt2:2019", "authority_code", "srid"};
  int what = sx_choose(0, 4, "enumeration");
  int id = sx_i32("value");
  const char* got = what == 0   ? GeoArrowGeometryTypeString((enum GeoArrowGeometryType)id)
                    : what == 1 ? GeoArrowDimensionsString((enum GeoArrowDimensions)id)
                    : what == 2 ? GeoArrowCoordTypeString((enum GeoArrowCoordType)id)
                    : what == 3 ? GeoArrowEdgeTypeString((enum GeoArrowEdgeType)id)
                                : GeoArrowCrsTypeString((enum GeoArrowCrsType)id);
  static const char* const* const all[] = {geoms, dims, layouts, edges, crs};
  static const int count[] = {8, 5, 3, 6, 6};
  SX_ASSERT(got != NULL && strlen(got) > 0, "every value has a name");
  if (what == 0 && id == 990) SX_ASSERT(seq(got, "BOX"), "name of the box type");
  else if (id >= 0 && id < count[what]) {
    int k = sx_choose(0, 7, "k");
    sx_assume(k == id);
    SX_ASSERT(seq(got, all[what][k]), "the name of the value");
    sx_cover("type");
  } else {
    for (int k = 0; k < count[what]; k++)
      SX_ASSERT(seq(got, "unknown") || !seq(got, all[what][k]), "a value outside the enumeration has no name of it");
    sx_cover("none");
  }
#endif
  SX_ASSERT(sx_live_allocs() <= live0, "no leak");
  return 0;
}
