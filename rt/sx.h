// Harness interface of the symbolic executor (symx) and of the native replay
// runtime (sx_rt.c).  A harness is an ordinary C/C++ program with an entry
// point sx_main(); under symx the inputs are solver variables, under the
// replay runtime they are the concrete bytes of one solver model.
#ifndef SX_H
#define SX_H
#include <stddef.h>
#include <stdint.h>
#ifdef __cplusplus
extern "C" {
#endif
int sx_main(void);
void sx_make_symbolic(void* p, uint64_t n, const char* name);
void sx_assume(int c);
void sx_assert_(int c, const char* msg);
void sx_observe(uint64_t v);
void sx_observe_bytes(const void* p, uint64_t n);
void sx_cover(const char* label);
void sx_cond_cover(int c, const char* label);
// fail the k-th (0-based) malloc/calloc/realloc from now on; -1 disarms
void sx_fail_alloc_at(int64_t k);
// from now on any malloc/calloc/realloc may fail, at most n of them in all
void sx_fail_allocs(int n);
// the failure armed last has not happened yet
int sx_fail_alloc_pending(void);
int sx_live_allocs(void);
uint64_t sx_concretize(uint64_t v);
int sx_is_symbolic(uint64_t v);
int sx_accessible(const void* p, uint64_t n);
int sx_is_heap(const void* p);
int sx_bytes_eq(const void* a, const void* b, uint64_t n);
// no byte of the range depends on never-written memory
int sx_initialised(const void* p, uint64_t n);
void sx_bound_cut(void);
void sx_kill(void);
#ifdef __cplusplus
}
#endif
#define SX_STR2(x) #x
#define SX_STR(x) SX_STR2(x)
#define SX_ASSERT(c, msg) sx_assert_((int)!!(c), msg)

static inline uint8_t sx_u8(const char* n) { uint8_t v; sx_make_symbolic(&v, 1, n); return v; }
static inline uint32_t sx_u32(const char* n) { uint32_t v; sx_make_symbolic(&v, 4, n); return v; }
static inline int32_t sx_i32(const char* n) { int32_t v; sx_make_symbolic(&v, 4, n); return v; }
static inline int64_t sx_i64(const char* n) { int64_t v; sx_make_symbolic(&v, 8, n); return v; }
static inline uint64_t sx_u64(const char* n) { uint64_t v; sx_make_symbolic(&v, 8, n); return v; }
static inline double sx_f64(const char* n) { double v; sx_make_symbolic(&v, 8, n); return v; }
// a value in [lo, hi] chosen by forking: afterwards it is concrete on each path
static inline int sx_choose(int lo, int hi, const char* n) {
  uint8_t v = sx_u8(n);
  sx_assume(v <= (uint8_t)(hi - lo));
  return lo + (int)sx_concretize(v);
}
#endif
