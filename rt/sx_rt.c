// Native runtime for replaying one concrete input against the real code.
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include "sx.h"
#ifdef SX_VALGRIND
#include <valgrind/memcheck.h>
#endif

static FILE* fin;
static FILE* fobs;
static int64_t fail_at = -1;
static int live;

void* __real_malloc(size_t);
void __real_free(void*);
static size_t hdr_size(void* p) { size_t n; memcpy(&n, (char*)p - 16, 8); return n; }
// allocations above 16 MB fail, as in the symbolic model
static int any_all, any_left;
static int inject(size_t n) {
  if (any_left > 0) {
    unsigned char c;
    sx_make_symbolic(&c, 1, "fail");
    if (c & 1) { any_left--; return 1; }
  }
  if (fail_at >= 0) {
    if (fail_at == 0) { fail_at = -1; return 1; }
    fail_at--;
  }
  return n > (16u << 20);
}
#include <malloc.h>
void* __wrap_malloc(size_t n) {
  if (inject(n)) return NULL;
  live++;
  return __real_malloc(n);
}
void* __wrap_calloc(size_t a, size_t b) {
  if (inject(a * b)) return NULL;
  live++;
  void* p = __real_malloc(a * b);
  memset(p, 0, a * b);
  return p;
}
void __wrap_free(void* p) {
  if (!p) return;
  live--;
  __real_free(p);
}
// realloc always moves
void* __wrap_realloc(void* p, size_t n) {
  if (!p) return __wrap_malloc(n);
  if (n == 0) { __wrap_free(p); return NULL; }
  if (inject(n)) return NULL;
  size_t old = malloc_usable_size(p);
  void* q = __real_malloc(n);
  memcpy(q, p, old < n ? old : n);
  __real_free(p);
  return q;
}
void* sx_rt_new(size_t n) { live++; return __real_malloc(n ? n : 1); }
void sx_rt_delete(void* p) { if (p) { live--; __real_free(p); } }

static int same_name(const char* a, const char* b) {
  for (; *a && *b; a++, b++)
    if (*a != (*b == ' ' ? '_' : *b)) return 0;
  return !*a && !*b;
}
void sx_make_symbolic(void* p, uint64_t n, const char* name) {
  char nm[128];
  unsigned long cnt;
  if (!fin || fscanf(fin, "%127s %lu", nm, &cnt) != 2 || !same_name(nm, name) || cnt != n) {
    fprintf(stderr, "SX-REPLAY-MISMATCH wanted %s[%lu]\n", name, (unsigned long)n);
    exit(78);
  }
  for (uint64_t i = 0; i < n; i++) {
    unsigned b;
    if (fscanf(fin, "%2x", &b) != 1) exit(78);
    ((unsigned char*)p)[i] = (unsigned char)b;
  }
}
void sx_assume(int c) { if (!c) { fprintf(stderr, "SX-ASSUME-FALSE\n"); _exit(77); } }
void sx_assert_(int c, const char* msg) {
  if (!c) {
    if (fobs) fflush(fobs);
    fprintf(stderr, "SX-ASSERT-FAILED: %s\n", msg);
    _exit(70);
  }
}
void sx_observe(uint64_t v) { if (fobs) fprintf(fobs, "%llx\n", (unsigned long long)v); }
void sx_observe_bytes(const void* p, uint64_t n) { for (uint64_t i = 0; i < n; i++) sx_observe(((const unsigned char*)p)[i]); }
void sx_cover(const char* l) { (void)l; }
void sx_cond_cover(int c, const char* l) { (void)c; (void)l; }
void sx_fail_alloc_at(int64_t k) { fail_at = k; any_all = any_left = 0; }
void sx_fail_allocs(int n) { any_all = any_left = n; }
int sx_fail_alloc_pending(void) { return fail_at >= 0 || (any_all && any_left == any_all); }
int sx_live_allocs(void) { return live; }
uint64_t sx_concretize(uint64_t v) { return v; }
int sx_is_symbolic(uint64_t v) { (void)v; return 0; }
#if defined(__SANITIZE_ADDRESS__)
void* __asan_region_is_poisoned(void* beg, size_t size);
#endif
int sx_accessible(const void* p, uint64_t n) {
  if (n == 0) return 1;
#if defined(__SANITIZE_ADDRESS__)
  if ((uint64_t)p < 4096) return 0;
  return __asan_region_is_poisoned((void*)p, n) == NULL;
#else
  return p != NULL;
#endif
}
int sx_is_heap(const void* p) { return p != NULL; }
int sx_bytes_eq(const void* a, const void* b, uint64_t n) { return n == 0 || memcmp(a, b, n) == 0; }
int sx_initialised(const void* p, uint64_t n) {
#ifdef SX_VALGRIND
  return n == 0 || VALGRIND_CHECK_MEM_IS_DEFINED(p, n) == 0;
#else
  (void)p; (void)n;
  return 1;
#endif
}
void sx_bound_cut(void) { _exit(77); }
void sx_kill(void) { _exit(0); }

int main(int argc, char** argv) {
  const char* in = argc > 1 ? argv[1] : getenv("SX_INPUT");
  fin = in ? fopen(in, "r") : NULL;
  const char* ob = argc > 2 ? argv[2] : NULL;
  fobs = ob ? fopen(ob, "w") : NULL;
  int r = sx_main();
  if (fobs) fclose(fobs);
  return r == 0 ? 0 : 0;
}
