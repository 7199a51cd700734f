// The C++ type descriptor.  MODE 0: histories of modifications, copies, moves and schema round trips
// MODE 1: any metadata text  2: any parts / identifiers  3: storages and extension names of different types
#include <cstring>
#include <string>
#include <utility>
#include "geoarrow/geoarrow.h"
#include "geoarrow/hpp/geometry_data_type.hpp"
#include "types.h"
#ifndef MODE
#define MODE 0
#endif
#ifndef N
#define N 2
#endif
#ifndef STEPS
#define STEPS 1
#endif
#ifndef KLO
#define KLO 0
#define KHI (NTYPES - 1)
#endif
#ifndef PRE
#define PRE ""
#endif
#ifndef POST
#define POST ""
#endif
#ifndef PRESET
#define PRESET 0
#endif
using geoarrow::GeometryDataType;
static struct GeoArrowError err;
struct ref {
  struct tdesc t;
  int edge, crs_type;
  std::string crs;
};
static std::string crs_text;   // the text WithCrs() is given: no JSON, so that crs() returns it as it is
static const std::string& lonlat() {
  static std::string s;
  if (s.empty()) {
    struct GeoArrowMetadataView v;
    memset(&v, 0, sizeof v);
    GeoArrowMetadataSetLonLat(&v);
    s = std::string(v.crs.data, (size_t)v.crs.size_bytes);
  }
  return s;
}
static int ref_make(int gt, int dim, int coord, struct tdesc* out) {
  for (int k = 0; k < NTYPES; k++) {
    struct tdesc t = tdesc_of(k);
    if (t.gt && t.gt == gt && t.dim == dim && t.coord == coord) { *out = t; return 1; }
  }
  return 0;
}
static int streq(const std::string& a, const std::string& b) { return a.size() == b.size() && (a.empty() || sx_bytes_eq(a.data(), b.data(), a.size())); }
static std::string text_of(const ref& r, size_t max, int* cut) {
  static const char* const edges[] = {"planar", "spherical", "vincenty", "thomas", "andoyer", "karney"};
  static const char* const crst[] = {"none", "unknown", "projjson", "wkt2:2019", "authority_code", "srid"};
  std::string s;
  if (r.t.id == 100002 || r.t.id == 100004) s += "large ";
  if (r.t.id == 100005 || r.t.id == 100006) s += "view ";
  if (r.edge) { s += edges[r.edge]; s += " "; }
  if (r.t.coord == 2) s += "interleaved ";
  s += t_ext(r.t);
  if (r.t.dim > 1) { s += "_"; s += t_dims(r.t.dim) + 2; }
  std::string c;
  if (r.crs_type == 1) c = r.crs;
  else if (r.crs_type > 1) { c = crst[r.crs_type]; c += ":"; c += r.crs; }
  if (!c.empty()) { c = "<" + c; c += ">"; }
  *cut = c.size() >= max;
  if (*cut) { c.resize(max - 4); c += "...>"; }
  return s + c;
}
static void check(const GeometryDataType& g, const ref& r) {
  SX_ASSERT((int)g.id() == r.t.id, "identifier");
  SX_ASSERT((int)g.geometry_type() == r.t.gt && (int)g.dimensions() == r.t.dim && (int)g.coord_type() == r.t.coord, "parts");
  SX_ASSERT(g.num_dimensions() == (r.t.dim ? t_nd(r.t.dim) : -1), "number of dimensions");
  SX_ASSERT((int)g.edge_type() == r.edge, "edges");
  SX_ASSERT((int)g.crs_type() == r.crs_type, "crs type");
  SX_ASSERT(streq(g.crs(), r.crs), "crs");
  int threw = 0;
  try { SX_ASSERT(g.extension_name() == (r.t.id ? t_ext(r.t) : ""), "extension name"); } catch (const geoarrow::Exception& e) { threw = 1; }
  SX_ASSERT(threw == (r.t.id == 0), "a name unless uninitialised");
  // the metadata says the same
  std::string m = g.extension_metadata();
  struct GeoArrowMetadataView v;
  struct GeoArrowStringView mv = {m.data(), (int64_t)m.size()};
  SX_ASSERT(GeoArrowMetadataViewInit(&v, mv, &err) == 0 && (int)v.edge_type == r.edge && (int)v.crs_type == r.crs_type, "metadata text");
  if (r.crs_type == 0) SX_ASSERT(v.crs.size_bytes == 0, "no crs in the metadata");
  size_t max = 40;
  int cut = 0;
  if (r.t.id == 0) {
    SX_ASSERT(g.ToString() == "<Uninitialized GeometryDataType>", "text of the uninitialised type");
  } else {
    std::string want = text_of(r, max, &cut);
    SX_ASSERT(streq(g.ToString(), want), "text");
    want = text_of(r, 7, &cut);
    SX_ASSERT(streq(g.ToString(7), want), "short text");
  }
}
static int op(GeometryDataType* g, ref* r) {
  int o = sx_choose(0, 15, "op"), ok = 1, done = 0;
  struct tdesc t = r->t;
  try {
    switch (o) {
      case 0: {
        static const int gts[] = {0, 1, 2, 3, 4, 5, 6, 7, 990};
        int gt = gts[sx_choose(0, 8, "gt")];
        ok = ref_make(gt, t.dim, t.coord, &t);
        *g = g->WithGeometryType((enum GeoArrowGeometryType)gt);
        break;
      }
      case 1: {
        int d = sx_choose(0, 4, "dim");
        ok = ref_make(t.gt, d, t.coord, &t);
        *g = g->WithDimensions((enum GeoArrowDimensions)d);
        break;
      }
      case 2: {
        int c = sx_choose(0, 2, "coord");
        ok = ref_make(t.gt, t.dim, c, &t);
        *g = g->WithCoordType((enum GeoArrowCoordType)c);
        break;
      }
      case 3: {
        int e = sx_choose(0, 5, "edge");
        *g = g->WithEdgeType((enum GeoArrowEdgeType)e);
        r->edge = e;
        break;
      }
      case 4: {
        int ct = sx_choose(1, 5, "crs type");
        std::string s(crs_text);
        *g = ct == 1 ? g->WithCrs(s) : g->WithCrs(s, (enum GeoArrowCrsType)ct);
        s.assign(s.size(), '?');  // the descriptor keeps its own copy
        r->crs = crs_text;
        r->crs_type = ct;
        break;
      }
      case 5:
        *g = g->WithCrsLonLat();
        r->crs = lonlat();
        r->crs_type = 2;
        break;
      case 6: {
        int d = sx_choose(1, 4, "dims");
        ok = ref_make(t.gt, d, t.coord, &t);
        *g = d == 1 ? g->XY() : d == 2 ? g->XYZ() : d == 3 ? g->XYM() : g->XYZM();
        break;
      }
      case 7:
        ok = t.gt >= 1 && t.gt <= 6 && ref_make(t.gt > 3 ? t.gt - 3 : t.gt, t.dim, t.coord, &t);
        *g = g->Simple();
        break;
      case 8:
        ok = t.gt >= 1 && t.gt <= 6 && ref_make(t.gt <= 3 ? t.gt + 3 : t.gt, t.dim, t.coord, &t);
        *g = g->Multi();
        break;
      case 9: {
        GeometryDataType c(*g);
        check(*g, *r);
        *g = GeometryDataType::Make(GEOARROW_TYPE_WKT).WithCrs("an entirely different crs, too long for the small string");
        check(c, *r);
        *g = c;
        break;
      }
      case 10: {
        GeometryDataType c(std::move(*g));
        SX_ASSERT(g->id() == GEOARROW_TYPE_UNINITIALIZED, "moved from");
        check(c, *r);
        *g = std::move(c);
        SX_ASSERT(c.id() == GEOARROW_TYPE_UNINITIALIZED && c.crs().empty() && c.extension_metadata() == "{}", "moved from");
        break;
      }
      case 11: {
        const GeometryDataType& self = *g;
        *g = self;
        break;
      }
      case 12: case 13: case 14: {
        struct ArrowSchema s;
        memset(&s, 0, sizeof s);
        ok = t.id != 0;
        GeometryDataType n;
        int live = sx_live_allocs();
        try {
          if (o == 12) {
            g->InitSchema(&s);
            n = GeometryDataType::Make(&s);
            SX_ASSERT(ref_type(&s, t_ext(t), (int64_t)strlen(t_ext(t))) == t.id, "storage of the schema");
          } else {
            if (o == 13) g->InitStorageSchema(&s); else GeoArrowSchemaInitExtension(&s, (enum GeoArrowType)(t.id ? t.id : 0));
            if (o == 13) SX_ASSERT(s.metadata == NULL, "only the storage");
            SX_ASSERT(ref_type(&s, t_ext(t), (int64_t)strlen(t_ext(t))) == t.id, "storage of the schema");
            n = GeometryDataType::Make(&s, g->extension_name(), g->extension_metadata());
          }
        } catch (...) {
          if (s.release) ArrowSchemaRelease(&s);
          SX_ASSERT(sx_live_allocs() >= live, "no schema left");
          throw;
        }
        ArrowSchemaRelease(&s);  // nothing of the schema is referred to
        *g = std::move(n);
        break;
      }
      case 15: {
        ok = t.id != 0;
        GeometryDataType n = GeometryDataType::Make(g->id(), g->extension_metadata());
        *g = n;
        break;
      }
    }
    done = 1;
  } catch (const geoarrow::Exception& e) {
    SX_ASSERT(e.what()[0] != 0, "an exception has a message");
  }
  SX_ASSERT(done == ok, "possible requests are granted, others throw");
  if (ok) { r->t = t; sx_cover("modified"); } else sx_cover("refused");
  check(*g, *r);
  return ok;
}
static void run() {
#if MODE == 0
  char txt[N + 1];
  sx_make_symbolic(txt, N, "crs");
  if (N) sx_assume(txt[0] != '{' && txt[0] != '"');
  crs_text = std::string(PRE) + std::string(txt, N) + POST;
  lonlat();
  ref r;
  int k = sx_choose(KLO, KHI + (KHI == NTYPES - 1), "type");
  memset(&r.t, 0, sizeof r.t);
  r.edge = r.crs_type = 0;
  GeometryDataType g;
  if (k < NTYPES) { r.t = tdesc_of(k); g = GeometryDataType::Make((enum GeoArrowType)r.t.id); }
  if (k < NTYPES && PRESET) {
    g = g.WithCrs(crs_text, GEOARROW_CRS_TYPE_SRID).WithEdgeType(GEOARROW_EDGE_TYPE_THOMAS);
    r.crs = crs_text; r.crs_type = 5; r.edge = 3;
  }
  check(g, r);
  GeometryDataType keep(g);
  ref rk = r;
  for (int i = 0; i < STEPS; i++) op(&g, &r);
  check(keep, rk);  // what happens to one descriptor does not show in another
#elif MODE == 1
  char txt[N + 1];
  sx_make_symbolic(txt, N, "text");
  std::string m = std::string(PRE) + std::string(txt, N) + POST;
  struct GeoArrowMetadataView v;
  memset(&v, 0, sizeof v);
  struct GeoArrowStringView mv = {m.data(), (int64_t)m.size()};
  int ok = GeoArrowMetadataViewInit(&v, mv, &err) == 0, done = 0;
  try {
    GeometryDataType g = GeometryDataType::Make(GEOARROW_TYPE_LINESTRING, m);
    done = 1;
    if (ok) {
      char buf[128];
      int64_t n = GeoArrowUnescapeCrs(v.crs, buf, sizeof buf);
      ref r;
      ref_make(2, 1, 1, &r.t);
      r.edge = (int)v.edge_type; r.crs_type = (int)v.crs_type;
      r.crs = std::string(buf, (size_t)n);
      m.assign(m.size(), '?');
      if (r.edge <= 5) check(g, r);
    }
  } catch (const geoarrow::ErrnoException& e) {
    SX_ASSERT(e.code != 0 && e.what()[0] != 0, "an error with a code and a message");
  }
  SX_ASSERT(done == ok, "exactly the well-formed metadata is accepted");
  if (ok) sx_cover("accepted"); else sx_cover("refused");
#elif MODE == 2
  static const int gts[] = {0, 1, 2, 3, 4, 5, 6, 7, 990};
  int which = sx_choose(0, 1, "which"), done = 0, ok;
  ref r;
  memset(&r.t, 0, sizeof r.t);
  r.edge = r.crs_type = 0;
  try {
    if (which) {
      int gt = gts[sx_choose(0, 8, "gt")];
      int dim = sx_choose(0, 4, "dim");
      int coord = sx_choose(0, 2, "coord");
      ok = ref_make(gt, dim, coord, &r.t);
      GeometryDataType g = GeometryDataType::Make((enum GeoArrowGeometryType)gt, (enum GeoArrowDimensions)dim, (enum GeoArrowCoordType)coord);
      done = 1;
      check(g, r);
    } else {
      int k = sx_choose(0, NTYPES, "type");
      ok = k < NTYPES;
      if (ok) r.t = tdesc_of(k);
      GeometryDataType g = GeometryDataType::Make((enum GeoArrowType)r.t.id);
      done = 1;
      check(g, r);
    }
  } catch (const geoarrow::Exception& e) {
    SX_ASSERT(e.what()[0] != 0, "an exception has a message");
  }
  SX_ASSERT(done == ok, "exactly the existing types");
  if (ok) sx_cover("accepted"); else sx_cover("refused");
  check(geoarrow::Wkb(), ref{tdesc_of(52), 0, 0, ""});
  check(geoarrow::Wkt(), ref{tdesc_of(54), 0, 0, ""});
  check(geoarrow::Box(), ref{tdesc_of(48), 0, 0, ""});
  check(geoarrow::Point(), ref{tdesc_of(0), 0, 0, ""});
  check(geoarrow::Linestring(), ref{tdesc_of(1), 0, 0, ""});
  check(geoarrow::Polygon(), ref{tdesc_of(2), 0, 0, ""});
#else
  struct tdesc a = tdesc_of(sx_choose(KLO, KHI, "storage"));
  struct tdesc b = tdesc_of(sx_choose(0, NTYPES - 1, "name"));
  struct ArrowSchema s;
  int how = sx_choose(0, 2, "how"), ok = 0, done = 0;
  const char* ext = t_ext(b);
  SX_ASSERT(GeoArrowSchemaInit(&s, (enum GeoArrowType)a.id) == 0, "storage");
  ref r;
  memset(&r.t, 0, sizeof r.t);
  r.edge = 1; r.crs_type = 0;
  const char* md = "{\"edges\":\"spherical\"}";
  int id = ref_type(&s, ext, (int64_t)strlen(ext));
  if (how == 0 || how == 2) {  // as the metadata of the schema
    struct ArrowBuffer mb;
    SX_ASSERT(ArrowMetadataBuilderInit(&mb, NULL) == 0, "builder");
    if (how == 0) SX_ASSERT(ArrowMetadataBuilderAppend(&mb, ArrowCharView("ARROW:extension:name"), ArrowCharView(ext)) == 0, "name");
    SX_ASSERT(ArrowMetadataBuilderAppend(&mb, ArrowCharView("ARROW:extension:metadata"), ArrowCharView(md)) == 0, "metadata");
    SX_ASSERT(ArrowSchemaSetMetadata(&s, (const char*)mb.data) == 0, "set");
    ArrowBufferReset(&mb);
  }
  for (int k = 0; k < NTYPES; k++) if (tdesc_of(k).id == id) r.t = tdesc_of(k);
  try {
    if (how == 0 || how == 2) {
      ok = how == 0 && id != 0;
      GeometryDataType g = GeometryDataType::Make((const struct ArrowSchema*)&s);
      done = 1;
      ArrowSchemaRelease(&s);
      if (ok) check(g, r);
    } else {
      ok = id != 0;
      GeometryDataType g = GeometryDataType::Make(&s, ext, md);
      done = 1;
      ArrowSchemaRelease(&s);
      if (ok) check(g, r);
    }
  } catch (const geoarrow::ErrnoException& e) {
    SX_ASSERT(e.code != 0 && e.what()[0] != 0, "an error with a code and a message");
    ArrowSchemaRelease(&s);
  }
  SX_ASSERT(done == ok, "exactly the storages of the named type");
  if (ok) sx_cover("accepted"); else sx_cover("refused");
#endif
}
extern "C" int sx_main(void) {
  lonlat();
  crs_text.reserve(200);
  int live0 = sx_live_allocs();
  run();
  { std::string none; crs_text.swap(none); }
  sx_observe(1);
  SX_ASSERT(sx_live_allocs() == live0 - 1, "no allocation left");
  return 0;
}
