// Schemas.  MODE 0: create / recognise / metadata, MODE 1: any extension name, MODE 2: any format at one node,
// MODE 3: any name at one node, MODE 4: children dropped, repeated or swapped, MODE 5: any type identifier
#include "types.h"
#ifndef MODE
#define MODE 0
#endif
#ifndef N
#define N 2
#endif
#ifndef PRE
#define PRE ""
#endif
#define NP ((int)sizeof(PRE) - 1)
#ifndef KLO
#define KLO 0
#define KHI (NTYPES - 1)
#endif
static struct GeoArrowError err;
static int recognised(const struct ArrowSchema* s, const char* ext, int64_t n) {
  struct GeoArrowSchemaView v;
  struct GeoArrowStringView e = {ext, n};
  memset(&v, 0x5a, sizeof v);
  err.message[0] = 0;
  if (GeoArrowSchemaViewInitFromStorage(&v, s, e, &err) != 0) {
    SX_ASSERT(err.message[0] != 0, "a refusal has a message");
    return 0;
  }
  int ok = 0;
  for (int k = 0; k < NTYPES; k++) {
    struct tdesc t = tdesc_of(k);
    ok |= t.id == (int)v.type && t.gt == (int)v.geometry_type && t.dim == (int)v.dimensions && t.coord == (int)v.coord_type;
  }
  SX_ASSERT(ok, "an accepted schema has a type with matching parts");
  SX_ASSERT(v.extension_name.size_bytes == n && v.extension_name.data == ext, "extension name as given");
  return (int)v.type;
}
static int viewed(const struct ArrowSchema* s, struct tdesc t, struct GeoArrowSchemaView* v) {
  memset(v, 0x5a, sizeof *v);
  return GeoArrowSchemaViewInit(v, s, &err) == 0 && (int)v->type == t.id && (int)v->geometry_type == t.gt && (int)v->dimensions == t.dim &&
         (int)v->coord_type == t.coord && seqn(v->extension_name.data, v->extension_name.size_bytes, t_ext(t));
}
static struct ArrowSchema* node_at(struct ArrowSchema* s, int k) {  // k-th node from the root, then the children of the last list
  while (k > 0 && s->n_children == 1) { s = s->children[0]; k--; }
  return k > 0 && k <= s->n_children ? s->children[k - 1] : k > 0 ? NULL : s;
}
static int has_key(const struct ArrowSchema* s, const char* key, const char* val) {
  struct ArrowStringView v = ArrowCharView(NULL);
  return ArrowMetadataGetValue(s->metadata, ArrowCharView(key), &v) == 0 && v.data && seqn(v.data, v.size_bytes, val);
}
int sx_main(void) {
  int live0 = sx_live_allocs();
  struct ArrowSchema s, s2;
  struct GeoArrowSchemaView v;
#if MODE == 5
  int32_t id;
  sx_make_symbolic(&id, 4, "type");
  int known = 0;
  for (int k = 0; k < NTYPES; k++) known |= tdesc_of(k).id == id;
  memset(&s, 0x5a, sizeof s);
  s.release = NULL;
  int rc = (sx_choose(0, 1, "which") ? GeoArrowSchemaInit : GeoArrowSchemaInitExtension)(&s, (enum GeoArrowType)id);
  SX_ASSERT((rc == 0) == known, "exactly the known identifiers have a schema");
  SX_ASSERT(rc == 0 ? s.release != NULL : 1, "a created schema can be released");
  if (s.release) ArrowSchemaRelease(&s);
  if (rc) sx_cover("refused");
  else sx_cover("created");
#else
  struct tdesc t = tdesc_of(sx_choose(KLO, KHI, "type"));
  const char* ext = t_ext(t);
#if MODE == 0
  SX_ASSERT(GeoArrowSchemaInit(&s, (enum GeoArrowType)t.id) == 0, "storage schema");
  SX_ASSERT(ref_type(&s, ext, (int64_t)strlen(ext)) == t.id, "the storage is that of the type");
  SX_ASSERT(recognised(&s, ext, (int64_t)strlen(ext)) == t.id, "storage and extension name are recognised");
  SX_ASSERT(GeoArrowSchemaViewInit(&v, &s, &err) != 0, "no extension, not recognised");
  ArrowSchemaRelease(&s);
  SX_ASSERT(GeoArrowSchemaInitExtension(&s, (enum GeoArrowType)t.id) == 0, "extension schema");
  SX_ASSERT(ref_type(&s, ext, (int64_t)strlen(ext)) == t.id, "the storage is that of the type");
  SX_ASSERT(viewed(&s, t, &v) && seqn(v.extension_metadata.data, v.extension_metadata.size_bytes, "{}"), "recognised, without metadata");
  {  // an unrelated key
    struct ArrowBuffer b;
    SX_ASSERT(ArrowMetadataBuilderInit(&b, s.metadata) == 0 && ArrowMetadataBuilderAppend(&b, ArrowCharView("k"), ArrowCharView("val")) == 0, "builder");
    SX_ASSERT(ArrowSchemaSetMetadata(&s, (const char*)b.data) == 0, "set");
    ArrowBufferReset(&b);
  }
  struct GeoArrowMetadataView m, m2;
  char crs[NP + N + 1];
  memcpy(crs, PRE, NP);
  sx_make_symbolic(crs + NP, N, "crs");
  if (NP + N) sx_assume(crs[0] != '{' && crs[0] != '"');
  memset(&m, 0, sizeof m);
  m.edge_type = (enum GeoArrowEdgeType)sx_choose(0, 1, "edges");
  m.crs_type = (enum GeoArrowCrsType)(sx_choose(0, 1, "crs type") ? 5 : 0);
  if (m.crs_type) { m.crs.data = crs; m.crs.size_bytes = NP + N; }
  SX_ASSERT(GeoArrowSchemaSetMetadata(&s, &m) == 0, "set metadata");
  for (int round = 0; round < 3; round++) {
    struct ArrowSchema* p = round ? &s2 : &s;
    if (round == 1) {
      // over existing metadata of another type
      SX_ASSERT(GeoArrowSchemaInitExtension(&s2, (enum GeoArrowType)t.id) == 0, "second schema");
      SX_ASSERT(GeoArrowSchemaSetMetadataFrom(&s2, &s) == 0, "metadata of the other schema");
    } else if (round == 2) {
      SX_ASSERT(ArrowSchemaDeepCopy(&s, &s2) == 0, "copy");
    }
    SX_ASSERT(viewed(p, t, &v), "still the same type");
    SX_ASSERT(GeoArrowMetadataViewInit(&m2, v.extension_metadata, &err) == 0 && m2.edge_type == m.edge_type && m2.crs_type == m.crs_type, "metadata kept");
    char o[NP + N + 2];
    if (m.crs_type) SX_ASSERT(GeoArrowUnescapeCrs(m2.crs, o, NP + N + 1) == NP + N && memcmp(o, crs, NP + N) == 0, "crs kept");
    else SX_ASSERT(m2.crs.size_bytes == 0, "no crs");
    if (round != 1) SX_ASSERT(has_key(p, "k", "val"), "other metadata kept");
    SX_ASSERT(has_key(p, "ARROW:extension:name", ext), "extension name kept");
    if (round) ArrowSchemaRelease(&s2);
  }
  SX_ASSERT(GeoArrowSchemaInit(&s2, (enum GeoArrowType)t.id) == 0 && GeoArrowSchemaSetMetadataFrom(&s2, &s) == 0, "onto a schema without any metadata");
  SX_ASSERT(GeoArrowSchemaViewInit(&v, &s2, &err) != 0 && s2.metadata != NULL, "metadata alone is no extension");
  ArrowSchemaRelease(&s2);
  sx_cover("roundtrip");
#elif MODE == 1
  char name[N + 1];
  sx_make_symbolic(name, N, "name");
  SX_ASSERT(GeoArrowSchemaInit(&s, (enum GeoArrowType)t.id) == 0, "storage schema");
  char* ex = (char*)malloc(N ? N : 1);
  memcpy(ex, name, N);
  int want = ref_type(&s, name, N);
  SX_ASSERT(recognised(&s, ex, N) == want, "recognised exactly when the name denotes the storage");
  struct ArrowBuffer b;
  struct ArrowStringView sv = {ex, N};
  SX_ASSERT(ArrowMetadataBuilderInit(&b, NULL) == 0 && ArrowMetadataBuilderAppend(&b, ArrowCharView("ARROW:extension:name"), sv) == 0, "builder");
  SX_ASSERT(ArrowSchemaSetMetadata(&s, (const char*)b.data) == 0, "set");
  ArrowBufferReset(&b);
  int rc = GeoArrowSchemaViewInit(&v, &s, &err);
  SX_ASSERT(want ? rc == 0 && (int)v.type == want : rc != 0, "the same through the schema's own metadata");
  if (want) sx_cover("accepted");
  else sx_cover("refused");
  free(ex);
#elif MODE == 2 || MODE == 3 || MODE == 4
  SX_ASSERT(GeoArrowSchemaInit(&s, (enum GeoArrowType)t.id) == 0, "storage schema");
  struct ArrowSchema* nd = node_at(&s, sx_choose(0, 8, "node"));
  sx_assume(nd != NULL);
#if MODE == 2
  int len = sx_choose(1, N, "length");
  char* f = (char*)malloc((size_t)len + 1);
  sx_make_symbolic(f, (uint64_t)len, "format");
  f[len] = 0;
  for (int i = 0; i < len; i++) sx_assume(f[i] != 0);
  // a width is written in decimal digits
  if (len > 3 && f[0] == '+' && f[1] == 'w' && f[2] == ':') for (int i = 3; i < len; i++) sx_assume(f[i] >= '0' && f[i] <= '9');
  const char* old = nd->format;
  nd->format = f;
#elif MODE == 3
  int len = sx_choose(0, N, "length");
  char* f = (char*)malloc((size_t)len + 1);
  sx_make_symbolic(f, (uint64_t)len, "name");
  f[len] = 0;
  for (int i = 0; i < len; i++) sx_assume(f[i] != 0);
  const char* old = nd->name;
  nd->name = sx_choose(0, 1, "null name") ? NULL : f;
#else
  struct ArrowSchema* kids[16];
  struct ArrowSchema** old = nd->children;
  int64_t nold = nd->n_children;
  sx_assume(nold > 0 && nold < 9);
  int how = sx_choose(0, 3, "how"), at = sx_choose(0, (int)nold - 1, "at"), k = 0;
  for (int i = 0; i < nold; i++) {
    if (how == 0 && i == at) continue;           // dropped
    kids[k++] = old[how == 2 ? (i == at ? (at + 1) % nold : i == (at + 1) % nold ? at : i) : i];  // swapped
    if (how == 1 && i == at) kids[k++] = old[i]; // repeated
    if (how == 3 && i == nold - 1) kids[k++] = old[at];  // repeated at the end
  }
  nd->children = kids;
  nd->n_children = k;
#endif
  int want = ref_type(&s, ext, (int64_t)strlen(ext));
  SX_ASSERT(recognised(&s, ext, (int64_t)strlen(ext)) == want, "recognised exactly when the storage is that of a type");
  if (want) sx_cover("accepted");
  else sx_cover("refused");
#if MODE == 2
  nd->format = old;
  free(f);
#elif MODE == 3
  nd->name = old;
  free(f);
#else
  nd->children = old;
  nd->n_children = nold;
#endif
#endif
  ArrowSchemaRelease(&s);
#endif
  SX_ASSERT(sx_live_allocs() == live0, "no allocation left");
  return 0;
}
