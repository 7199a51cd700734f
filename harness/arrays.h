// Symbolic Arrow arrays of the native types: sizes and offsets by choice, ordinates and validity by the solver.
#ifndef ARRAYS_H
#define ARRAYS_H
#include "aref.h"
#ifndef MAXS
#define MAXS 2
#endif
#ifndef OFF
#define OFF 1     // the offset of the outer array: 0 or this
#endif
#ifndef INOFF
#define INOFF 1   // the offset of every inner array: 0 or this
#endif
static struct ArrowArray nodes[40];
static struct ArrowArray* kids[40][8];
static const void* bufs[40][3];
static int nnodes;
static void* blocks[64];
static int nblocks;
// offsets inside: chosen one by one, or (UNI) all or none, with different amounts
#ifdef UNI
static int uni;
static int inner(const char* what) { (void)what; return uni ? 1 + nnodes % 3 : 0; }
#else
static int inner(const char* what) { return INOFF ? sx_choose(0, 1, what) * INOFF : 0; }
#endif
// LONGA: that many features; their parts have few different sizes, but one has LONGP (innermost) or LONGQ parts;
// one of the ordinates of every buffer is arbitrary
#ifdef LONGA
#ifndef LONGP
#define LONGP 5
#endif
#ifndef LONGQ
#define LONGQ 3
#endif
static int arr_pick(int lo, int hi, const char* what) {
  int c = hi > lo ? sx_choose(0, 3, what) : 0;
  int v = c == 0 ? lo : c == 1 ? hi : c == 2 ? lo + (hi - lo) / 2 : 64;
  sx_assume(c < 3 || (v > lo && v < hi));
  return v;
}
static int arr_size(int depth, int i, int special) { return i == special ? (depth == 1 ? LONGP : LONGQ) : depth == 1 ? i * 3 % 4 : i % 3; }
#else
#define arr_pick sx_choose
#endif
static void* blk(size_t n) { return blocks[nblocks++] = malloc(n ? n : 1); }
static struct ArrowArray* node(int64_t len, int64_t off, int nb, int nk) {
  struct ArrowArray* a = &nodes[nnodes];
  memset(a, 0, sizeof *a);
  a->length = len; a->offset = off; a->n_buffers = nb; a->n_children = nk;
  a->buffers = bufs[nnodes];
  a->children = kids[nnodes];
  nnodes++;
  return a;
}
static struct ArrowArray* doubles(int64_t len, const char* name) {
  int off = inner("value offset");
  struct ArrowArray* a = node(len, off, 2, 0);
  void* p = blk((size_t)(len + off) * 8);
#ifdef LONGA
  for (int64_t i = 0; i < len + off; i++) ((double*)p)[i] = (double)(i * 7 % 1000) + nnodes * 0.125;
  if (len) sx_make_symbolic((double*)p + off + len / 2, 8, name);
#else
  if (len + off) sx_make_symbolic(p, (uint64_t)(len + off) * 8, name);
#endif
  a->buffers[1] = p;
  return a;
}
static struct ArrowArray* coords(int64_t len, int nd, int coord, int off) {
  struct ArrowArray* a = node(len, off, 1, coord == 1 ? nd : 1);
  for (int j = 0; j < a->n_children; j++) a->children[j] = doubles((len + off) * (coord == 1 ? 1 : nd), "ord");
  return a;
}
// a list array with off elements before and post after the len of interest
// (those used by the parent are lo..hi, the others have one part)
static struct ArrowArray* lists(int depth, int64_t len, int off, int nd, int coord, int lo, int hi) {
  if (depth == 0) return coords(len, nd, coord, off);
  struct ArrowArray* a = node(len, off, 2, 1);
  int32_t* o = (int32_t*)blk((size_t)(len + off + 1) * 4);
  a->buffers[1] = o;
  int base = inner("first offset"), first = base, last = base;
  for (int i = 0; i <= len + off; i++) {
    o[i] = base;
    if (i == off + lo) first = base;
    if (i == off + hi) last = base;
    if (i < len + off) base += i < off + lo || i >= off + hi ? 1 :
#ifdef LONGA
      arr_size(depth, i, off + lo + (hi > lo + 1));
#else
      sx_choose(0, MAXS, "size");
#endif
  }
  a->children[0] = lists(depth - 1, base + (INOFF ? 1 : 0), inner("inner offset"), nd, coord, first, last);
  return a;
}
#endif
