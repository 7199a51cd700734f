// Hash-consed bit-vector expressions with light, sound simplification.
#pragma once
#include <z3.h>

#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <string>
#include <unordered_map>
#include <unordered_set>
#include <vector>

typedef unsigned __int128 u128;
typedef __int128 i128;

enum Kind : uint8_t {
  KConst, KSym, KAdd, KSub, KMul, KUDiv, KSDiv, KURem, KSRem, KAnd, KOr, KXor,
  KShl, KLShr, KAShr, KEq, KUlt, KUle, KSlt, KSle, KConcat, KExtract, KZExt, KSExt,
  KIte, KFAdd, KFSub, KFMul, KFDiv, KUIToFP, KSIToFP, KFPToUI, KFPToSI, KFPExt, KFPTrunc
};

typedef std::vector<uint32_t> SymSet;

struct Expr {
  Kind kind;
  bool uninit;     // depends on memory that was never written
  uint16_t width;  // 1..128 (wider only for Concat/Extract chains)
  uint32_t id;
  uint32_t depth;
  u128 val;  // constant value, symbol index, or extract offset
  const Expr *a, *b, *c;
  const SymSet* syms;
  mutable uint64_t epoch;
  mutable u128 memo;
  mutable Z3_ast z;   // bit-vector translation
  mutable Z3_ast zb;  // boolean translation (width 1)
  bool isConst() const { return kind == KConst; }
  uint64_t u64() const { return (uint64_t)val; }
};
typedef const Expr* E;

extern Z3_context Z;

inline u128 maskW(unsigned w) { return w >= 128 ? ~(u128)0 : (((u128)1 << w) - 1); }
inline i128 sextW(u128 v, unsigned w) {
  if (w >= 128) return (i128)v;
  u128 s = (u128)1 << (w - 1);
  v &= maskW(w);
  return (i128)((v ^ s) - s);
}

E mkConst(u128 v, unsigned w);
E mkSym(bool uninit);
E mkBin(Kind k, E a, E b);
E mkExtract(E a, unsigned off, unsigned w);
E mkConcat(E hi, E lo);
E mkZExt(E a, unsigned w);
E mkSExt(E a, unsigned w);
E mkIte(E c, E a, E b);
E mkNot(E a);  // width 1
E mkFP(Kind k, E a, E b, unsigned w);
inline E mkAdd(E a, E b) { return mkBin(KAdd, a, b); }
inline E mkSub(E a, E b) { return mkBin(KSub, a, b); }
inline E mkEq(E a, E b) { return mkBin(KEq, a, b); }
inline E mkNe(E a, E b) { return mkNot(mkBin(KEq, a, b)); }
inline E mkAnd(E a, E b) { return mkBin(KAnd, a, b); }
inline E mkOr(E a, E b) { return mkBin(KOr, a, b); }
inline E mkTrue() { return mkConst(1, 1); }
inline E mkFalse() { return mkConst(0, 1); }
inline E mkZExtOrTrunc(E a, unsigned w) {
  if (a->width == w) return a;
  return a->width < w ? mkZExt(a, w) : mkExtract(a, 0, w);
}

typedef std::vector<uint8_t> Model;  // symbol index -> byte
u128 evalExpr(E e, const Model& m);
Z3_ast toZ3(E e);
Z3_ast toZ3Bool(E e);
uint32_t numSyms();
bool symIsUninit(uint32_t s);
std::string exprStr(E e, int depth = 4);
E symExpr(uint32_t s);
E fpIsNan(E a);
E fpLt(E a, E b);
E fpEq(E a, E b);
E fpLe(E a, E b);
E combineBytes(const E* bytes, unsigned n);  // little-endian: bytes[0] is the LSB
E byteOf(E v, unsigned i);
E mkBswap(E v);
inline double bitsToDouble(uint64_t v) { double d; memcpy(&d, &v, 8); return d; }
inline uint64_t doubleToBits(double d) { uint64_t v; memcpy(&v, &d, 8); return v; }
inline float bitsToFloat(uint32_t v) { float d; memcpy(&d, &v, 4); return d; }
inline uint32_t floatToBits(float d) { uint32_t v; memcpy(&v, &d, 4); return v; }
u128 fpOp(Kind k, u128 a, u128 b, unsigned wa, unsigned w);
