#include "expr.h"

#include <algorithm>
#include <cmath>
#include <string>

Z3_context Z = nullptr;

static std::vector<E> gSyms;
static std::vector<bool> gSymUninit;
static SymSet gEmpty;
static uint32_t gNextId = 1;
static uint64_t gEpoch = 1;

struct Key {
  Kind k;
  uint16_t w;
  u128 v;
  E a, b, c;
  bool operator==(const Key& o) const {
    return k == o.k && w == o.w && v == o.v && a == o.a && b == o.b && c == o.c;
  }
};
struct KeyHash {
  size_t operator()(const Key& k) const {
    uint64_t h = (uint64_t)k.k * 0x9E3779B97F4A7C15ull + k.w;
    auto mix = [&](uint64_t x) {
      h ^= x + 0x9E3779B97F4A7C15ull + (h << 6) + (h >> 2);
      h *= 0xff51afd7ed558ccdull;
      h ^= h >> 32;
    };
    mix((uint64_t)k.v);
    mix((uint64_t)(k.v >> 64));
    mix((uint64_t)(uintptr_t)k.a);
    mix((uint64_t)(uintptr_t)k.b);
    mix((uint64_t)(uintptr_t)k.c);
    return h;
  }
};
static std::unordered_map<Key, E, KeyHash> gTab;

struct SetHash {
  size_t operator()(const SymSet& s) const {
    uint64_t h = 1469598103934665603ull;
    for (uint32_t x : s) h = (h ^ x) * 1099511628211ull;
    return h;
  }
};
static std::unordered_set<SymSet, SetHash> gSets;

static const SymSet* unionSets(const SymSet* a, const SymSet* b) {
  if (a == b || b->empty()) return a;
  if (a->empty()) return b;
  if (a->size() >= b->size() && std::includes(a->begin(), a->end(), b->begin(), b->end()))
    return a;
  if (b->size() >= a->size() && std::includes(b->begin(), b->end(), a->begin(), a->end()))
    return b;
  SymSet r;
  std::set_union(a->begin(), a->end(), b->begin(), b->end(), std::back_inserter(r));
  return &*gSets.insert(r).first;
}

static E intern(Kind k, unsigned w, u128 v, E a = nullptr, E b = nullptr, E c = nullptr) {
  Key key{k, (uint16_t)w, v, a, b, c};
  auto it = gTab.find(key);
  if (it != gTab.end()) return it->second;
  Expr* e = new Expr();
  e->kind = k;
  e->width = w;
  e->val = v;
  e->a = a;
  e->b = b;
  e->c = c;
  e->id = gNextId++;
  e->epoch = 0;
  e->z = e->zb = nullptr;
  e->syms = &gEmpty;
  e->uninit = false;
  e->depth = 1;
  for (E x : {a, b, c})
    if (x) {
      e->syms = unionSets(e->syms, x->syms);
      e->uninit |= x->uninit;
      e->depth = std::max(e->depth, x->depth + 1);
    }
  gTab.emplace(key, e);
  return e;
}

E mkConst(u128 v, unsigned w) { return intern(KConst, w, v & maskW(w)); }

E mkSym(bool uninit) {
  uint32_t idx = gSyms.size();
  Expr* e = new Expr();
  e->kind = KSym;
  e->width = 8;
  e->val = idx;
  e->a = e->b = e->c = nullptr;
  e->id = gNextId++;
  e->epoch = 0;
  e->z = e->zb = nullptr;
  e->uninit = uninit;
  e->depth = 1;
  e->syms = &*gSets.insert(SymSet{idx}).first;
  gSyms.push_back(e);
  gSymUninit.push_back(uninit);
  return e;
}
uint32_t numSyms() { return gSyms.size(); }
bool symIsUninit(uint32_t s) { return gSymUninit[s]; }
E symExpr(uint32_t s) { return gSyms[s]; }

u128 fpOp(Kind k, u128 a, u128 b, unsigned wa, unsigned w) {
  if (k == KUIToFP) return w == 64 ? doubleToBits((double)a) : floatToBits((float)a);
  if (k == KSIToFP) {
    i128 s = sextW(a, wa);
    return w == 64 ? doubleToBits((double)s) : floatToBits((float)s);
  }
  if (k == KFPExt) return doubleToBits((double)bitsToFloat((uint32_t)a));
  if (k == KFPTrunc) return floatToBits((float)bitsToDouble((uint64_t)a));
  if (k == KFPToUI || k == KFPToSI) {
    double d = wa == 64 ? bitsToDouble((uint64_t)a) : (double)bitsToFloat((uint32_t)a);
    if (!(std::fabs(d) < 1.7e38)) return 0;
    i128 r = (i128)d;
    return (u128)r & maskW(w);
  }
  if (w == 64) {
    double x = bitsToDouble((uint64_t)a), y = bitsToDouble((uint64_t)b), r = 0;
    switch (k) {
      case KFAdd: r = x + y; break;
      case KFSub: r = x - y; break;
      case KFMul: r = x * y; break;
      case KFDiv: r = x / y; break;
      default: abort();
    }
    return doubleToBits(r);
  }
  float x = bitsToFloat((uint32_t)a), y = bitsToFloat((uint32_t)b), r = 0;
  switch (k) {
    case KFAdd: r = x + y; break;
    case KFSub: r = x - y; break;
    case KFMul: r = x * y; break;
    case KFDiv: r = x / y; break;
    default: abort();
  }
  return floatToBits(r);
}

static u128 binOp(Kind k, u128 a, u128 b, unsigned w) {
  u128 m = maskW(w);
  switch (k) {
    case KAdd: return (a + b) & m;
    case KSub: return (a - b) & m;
    case KMul: return (a * b) & m;
    case KUDiv: return b == 0 ? m : a / b;
    case KURem: return b == 0 ? a : a % b;
    case KSDiv: {
      i128 x = sextW(a, w), y = sextW(b, w);
      if (y == 0) return x < 0 ? 1 : m;
      if (y == -1) return (u128)(0 - (u128)x) & m;
      return (u128)(x / y) & m;
    }
    case KSRem: {
      i128 x = sextW(a, w), y = sextW(b, w);
      if (y == 0) return a;
      if (y == -1) return 0;
      return (u128)(x % y) & m;
    }
    case KAnd: return a & b;
    case KOr: return a | b;
    case KXor: return a ^ b;
    case KShl: return b >= w ? 0 : (a << (unsigned)b) & m;
    case KLShr: return b >= w ? 0 : a >> (unsigned)b;
    case KAShr: {
      i128 x = sextW(a, w);
      unsigned s = b >= w ? w - 1 : (unsigned)b;
      return (u128)(x >> s) & m;
    }
    case KEq: return a == b;
    case KUlt: return a < b;
    case KUle: return a <= b;
    case KSlt: return sextW(a, w) < sextW(b, w);
    case KSle: return sextW(a, w) <= sextW(b, w);
    default: abort();
  }
}

static inline bool isCmp(Kind k) { return k >= KEq && k <= KSle; }
static inline bool isComm(Kind k) {
  return k == KAdd || k == KMul || k == KAnd || k == KOr || k == KXor || k == KEq;
}

E mkNot(E a) {
  if (a->isConst()) return mkConst(!a->val, 1);
  return mkBin(KEq, a, mkConst(0, 1));
}

// upper bound of the unsigned value (cheap)
static u128 ubound(E e, int d = 3) {
  if (e->isConst()) return e->val;
  if (d == 0) return maskW(e->width);
  switch (e->kind) {
    case KZExt: return ubound(e->a, d - 1);
    case KIte: return std::max(ubound(e->b, d - 1), ubound(e->c, d - 1));
    case KAnd: return std::min(ubound(e->a, d - 1), ubound(e->b, d - 1));
    case KConcat:
      if (e->a->isConst() && e->width < 128) return (e->a->val << e->b->width) | maskW(e->b->width);
      return maskW(e->width);
    case KLShr:
      if (e->b->isConst() && e->b->val < e->width) return ubound(e->a, d - 1) >> (unsigned)e->b->val;
      return maskW(e->width);
    default: return maskW(e->width);
  }
}

E mkBin(Kind k, E a, E b) {
  unsigned w = a->width;
  if (a->width != b->width) {
    fprintf(stderr, "width mismatch kind %d: %u %u\n", k, a->width, b->width);
    abort();
  }
  unsigned rw = isCmp(k) ? 1 : w;
  if (a->isConst() && b->isConst()) return mkConst(binOp(k, a->val, b->val, w), rw);
  if (isComm(k)) {
    if (a->isConst() || (!b->isConst() && a->id > b->id)) std::swap(a, b);
  }
  u128 m = maskW(w);
  bool bc = b->isConst();
  u128 bv = bc ? b->val : 0;
  switch (k) {
    case KAdd:
      if (bc && bv == 0) return a;
      if (bc && a->kind == KAdd && a->b->isConst())
        return mkBin(KAdd, a->a, mkConst(a->b->val + bv, w));
      if (a->kind == KSub && a->b == b) return a->a;
      if (b->kind == KSub && b->b == a) return b->a;
      if (w == 1) return mkBin(KXor, a, b);
      break;
    case KSub:
      if (bc) return mkBin(KAdd, a, mkConst(0 - bv, w));
      if (a == b) return mkConst(0, w);
      if (a->kind == KAdd) {
        if (a->a == b) return a->b;
        if (a->b == b) return a->a;
        // (x + c1) - (x + c2)
        if (b->kind == KAdd && a->a == b->a && a->b->isConst() && b->b->isConst())
          return mkConst(a->b->val - b->b->val, w);
      }
      if (b->kind == KAdd && b->b->isConst() && b->a == a) return mkConst(0 - b->b->val, w);
      if (a->kind == KAdd && a->b->isConst())
        return mkBin(KAdd, mkBin(KSub, a->a, b), a->b);
      break;
    case KMul:
      if (bc && bv == 0) return b;
      if (bc && bv == 1) return a;
      if (w == 1) return mkBin(KAnd, a, b);
      break;
    case KUDiv:
      if (bc && bv == 1) return a;
      if (bc && bv && (bv & (bv - 1)) == 0) {
        unsigned s = 0;
        while (((u128)1 << s) != bv) s++;
        return mkBin(KLShr, a, mkConst(s, w));
      }
      break;
    case KURem:
      if (bc && bv && (bv & (bv - 1)) == 0) return mkBin(KAnd, a, mkConst(bv - 1, w));
      break;
    case KSDiv:
      if (bc && bv == 1) return a;
      break;
    case KAnd:
      if (bc && bv == 0) return b;
      if (bc && bv == m) return a;
      if (a == b) return a;
      if (bc) {
        // low mask -> extract
        if ((bv & (bv + 1)) == 0) {
          unsigned n = 0;
          while ((bv >> n) & 1) n++;
          return mkZExt(mkExtract(a, 0, n), w);
        }
        if (a->kind == KZExt && w > a->a->width)
          return mkZExt(mkBin(KAnd, a->a, mkConst(bv, a->a->width)), w);
        if (a->kind == KAnd && a->b->isConst()) return mkBin(KAnd, a->a, mkConst(a->b->val & bv, w));
      }
      if (w == 1) {
        if (a == mkNot(b)) return mkConst(0, 1);
      }
      break;
    case KOr:
      if (bc && bv == 0) return a;
      if (bc && bv == m) return b;
      if (a == b) return a;
      if (w == 1 && a == mkNot(b)) return mkConst(1, 1);
      // disjoint zext | (x << k)  -> concat
      {
        E x = a, y = b;
        for (int t = 0; t < 2; t++, std::swap(x, y)) {
          // y = concat(h, 0..0) with low zero bits >= bits of x
          if (x->kind == KZExt && y->kind == KConcat && y->b->isConst() && y->b->val == 0 &&
              x->a->width <= y->b->width) {
            return mkConcat(y->a, mkZExt(x->a, y->b->width));
          }
          // x = concat(0, lo) form
          if (x->kind == KConcat && x->a->isConst() && x->a->val == 0 && y->kind == KConcat &&
              y->b->isConst() && y->b->val == 0 && x->b->width <= y->b->width) {
            return mkConcat(y->a, mkZExt(x->b, y->b->width));
          }
          // y = zext(concat(h,0)), x = zext(lo)
          if (x->kind == KZExt && y->kind == KZExt && y->a->kind == KConcat &&
              y->a->b->isConst() && y->a->b->val == 0 && x->a->width <= y->a->b->width)
            return mkZExt(mkConcat(y->a->a, mkZExt(x->a, y->a->b->width)), w);
        }
      }
      break;
    case KXor:
      if (bc && bv == 0) return a;
      if (a == b) return mkConst(0, w);
      if (w == 1 && bc) return mkNot(a);
      if (bc && a->kind == KXor && a->b->isConst()) return mkBin(KXor, a->a, mkConst(a->b->val ^ bv, w));
      break;
    case KShl:
      if (bc) {
        if (bv == 0) return a;
        if (bv >= w) return mkConst(0, w);
        return mkConcat(mkExtract(a, 0, w - (unsigned)bv), mkConst(0, (unsigned)bv));
      }
      if (a->isConst() && a->val == 0) return a;
      break;
    case KLShr:
      if (bc) {
        if (bv == 0) return a;
        if (bv >= w) return mkConst(0, w);
        return mkZExt(mkExtract(a, (unsigned)bv, w - (unsigned)bv), w);
      }
      if (a->isConst() && a->val == 0) return a;
      break;
    case KAShr:
      if (bc) {
        if (bv == 0) return a;
        if (bv >= w) bv = w - 1;
        return mkSExt(mkExtract(a, (unsigned)bv, w - (unsigned)bv), w);
      }
      break;
    case KEq:
      if (a == b) return mkConst(1, 1);
      if (bc) {
        if (w == 1) {
          if (bv == 1) return a;
          // not(not(x))
          if (a->kind == KEq && a->b->isConst() && a->b->width == 1 && a->b->val == 0) return a->a;
          if (a->kind == KUlt) return mkBin(KUle, a->b, a->a);
          if (a->kind == KUle) return mkBin(KUlt, a->b, a->a);
          if (a->kind == KSlt) return mkBin(KSle, a->b, a->a);
          if (a->kind == KSle) return mkBin(KSlt, a->b, a->a);
        }
        if (a->kind == KZExt) {
          if (bv > maskW(a->a->width)) return mkConst(0, 1);
          return mkBin(KEq, a->a, mkConst(bv, a->a->width));
        }
        if (a->kind == KSExt) {
          u128 lo = bv & maskW(a->a->width);
          if (((u128)sextW(lo, a->a->width) & m) != bv) return mkConst(0, 1);
          return mkBin(KEq, a->a, mkConst(lo, a->a->width));
        }
        if (a->kind == KAdd && a->b->isConst()) return mkBin(KEq, a->a, mkConst(bv - a->b->val, w));
        if (a->kind == KXor && a->b->isConst()) return mkBin(KEq, a->a, mkConst(bv ^ a->b->val, w));
        if (a->kind == KConcat) {
          E hi = mkBin(KEq, a->a, mkConst(bv >> a->b->width, a->a->width));
          if (hi->isConst() && !hi->val) return hi;
          E lo = mkBin(KEq, a->b, mkConst(bv, a->b->width));
          return mkBin(KAnd, hi, lo);
        }
        if (a->kind == KIte && a->b->isConst() && a->c->isConst()) {
          bool x = a->b->val == bv, y = a->c->val == bv;
          if (x && y) return mkConst(1, 1);
          if (!x && !y) return mkConst(0, 1);
          return x ? a->a : mkNot(a->a);
        }
        if (a->kind == KIte && (a->b->isConst() || a->c->isConst())) {
          return mkIte(a->a, mkBin(KEq, a->b, b), mkBin(KEq, a->c, b));
        }
      }
      if (a->kind == KZExt && b->kind == KZExt && a->a->width == b->a->width)
        return mkBin(KEq, a->a, b->a);
      if (a->kind == KConcat && b->kind == KConcat && a->b->width == b->b->width) {
        return mkBin(KAnd, mkBin(KEq, a->a, b->a), mkBin(KEq, a->b, b->b));
      }
      break;
    case KUlt:
      if (a == b) return mkConst(0, 1);
      if (bc && bv == 0) return mkConst(0, 1);
      if (bc && bv == 1) return mkBin(KEq, a, mkConst(0, w));
      if (bc && ubound(a) < bv) return mkConst(1, 1);
      if (a->isConst() && ubound(b) <= a->val) return mkConst(0, 1);
      if (bc && a->kind == KZExt && bv <= maskW(a->a->width)) return mkBin(KUlt, a->a, mkConst(bv, a->a->width));
      if (a->isConst() && b->kind == KZExt && a->val <= maskW(b->a->width))
        return mkBin(KUlt, mkConst(a->val, b->a->width), b->a);
      if (a->kind == KZExt && b->kind == KZExt && a->a->width == b->a->width) return mkBin(KUlt, a->a, b->a);
      break;
    case KUle:
      if (a == b) return mkConst(1, 1);
      if (a->isConst() && a->val == 0) return mkConst(1, 1);
      if (bc && bv == m) return mkConst(1, 1);
      if (bc && bv == 0) return mkBin(KEq, a, b);
      if (bc && ubound(a) <= bv) return mkConst(1, 1);
      if (a->isConst() && ubound(b) < a->val) return mkConst(0, 1);
      if (bc && a->kind == KZExt && bv <= maskW(a->a->width)) return mkBin(KUle, a->a, mkConst(bv, a->a->width));
      if (a->isConst() && b->kind == KZExt && a->val <= maskW(b->a->width))
        return mkBin(KUle, mkConst(a->val, b->a->width), b->a);
      if (a->kind == KZExt && b->kind == KZExt && a->a->width == b->a->width) return mkBin(KUle, a->a, b->a);
      break;
    case KSlt:
    case KSle: {
      if (a == b) return mkConst(k == KSle, 1);
      // both non-negative -> unsigned
      u128 half = maskW(w) >> 1;
      if (ubound(a) <= half && ubound(b) <= half) return mkBin(k == KSlt ? KUlt : KUle, a, b);
      if (a->kind == KSExt && b->kind == KSExt && a->a->width == b->a->width)
        return mkBin(k, a->a, b->a);
      if (a->kind == KSExt && bc) {
        i128 v = sextW(bv, w);
        unsigned nw = a->a->width;
        i128 mx = (i128)(maskW(nw) >> 1), mn = -mx - 1;
        if (v > mx) return mkConst(1, 1);
        if (v < mn) return mkConst(0, 1);
        return mkBin(k, a->a, mkConst((u128)v, nw));
      }
      if (b->kind == KSExt && a->isConst()) {
        i128 v = sextW(a->val, w);
        unsigned nw = b->a->width;
        i128 mx = (i128)(maskW(nw) >> 1), mn = -mx - 1;
        if (v > mx) return mkConst(0, 1);
        if (v < mn) return mkConst(1, 1);
        return mkBin(k, mkConst((u128)v, nw), b->a);
      }
      break;
    }
    default: break;
  }
  // push ops with constant into ite of constants
  if (bc && a->kind == KIte && a->b->isConst() && a->c->isConst())
    return mkIte(a->a, mkBin(k, a->b, b), mkBin(k, a->c, b));
  if (a->isConst() && b->kind == KIte && b->b->isConst() && b->c->isConst())
    return mkIte(b->a, mkBin(k, a, b->b), mkBin(k, a, b->c));
  return intern(k, rw, 0, a, b);
}

// While bytes are split off for a store and joined again by a load, extracts
// stay whole so that the join gives back the stored term.
static bool rawExtract = false;
struct RawScope {
  bool old;
  RawScope() : old(rawExtract) { rawExtract = true; }
  ~RawScope() { rawExtract = old; }
};

E mkExtract(E a, unsigned off, unsigned w) {
  if (off == 0 && w == a->width) return a;
  if (a->isConst()) return mkConst(off >= 128 ? 0 : a->val >> off, w);
  switch (a->kind) {
    case KExtract: return mkExtract(a->a, off + (unsigned)a->val, w);
    case KConcat:
      if (off >= a->b->width) return mkExtract(a->a, off - a->b->width, w);
      if (off + w <= a->b->width) return mkExtract(a->b, off, w);
      return mkConcat(mkExtract(a->a, 0, off + w - a->b->width),
                      mkExtract(a->b, off, a->b->width - off));
    case KZExt:
      if (off >= a->a->width) return mkConst(0, w);
      if (off + w <= a->a->width) return mkExtract(a->a, off, w);
      return mkZExt(mkExtract(a->a, off, a->a->width - off), w);
    case KSExt:
      if (off + w <= a->a->width) return mkExtract(a->a, off, w);
      if (off == 0) return mkSExt(a->a, w);
      break;
    case KIte:
      if (rawExtract && a->width <= 64) break;
      if ((a->b->isConst() && a->c->isConst()) || a->width > 64)
        return mkIte(a->a, mkExtract(a->b, off, w), mkExtract(a->c, off, w));
      if (a->b->isConst() || a->c->isConst())
        return mkIte(a->a, mkExtract(a->b, off, w), mkExtract(a->c, off, w));
      break;
    case KAnd:
    case KOr:
    case KXor:
      if (rawExtract) break;
      if (a->b->isConst() || (off % 8 == 0 && w % 8 == 0))
        return mkBin(a->kind, mkExtract(a->a, off, w), mkExtract(a->b, off, w));
      break;
    case KAdd:
    case KSub:
    case KMul:
      if (off == 0 && !rawExtract) return mkBin(a->kind, mkExtract(a->a, 0, w), mkExtract(a->b, 0, w));
      break;
    default: break;
  }
  return intern(KExtract, w, off, a);
}

E mkConcat(E hi, E lo) {
  unsigned w = hi->width + lo->width;
  if (hi->isConst() && lo->isConst() && w <= 128)
    return mkConst((hi->val << lo->width) | lo->val, w);
  if (hi->isConst() && hi->val == 0 && !lo->isConst() && w <= 128) return mkZExt(lo, w);
  if (hi->kind == KExtract && lo->kind == KExtract && hi->a == lo->a &&
      (unsigned)hi->val == (unsigned)lo->val + lo->width)
    return mkExtract(hi->a, (unsigned)lo->val, w);
  // hi is an extract adjacent to a whole expression: x[hi] ++ x when lo is low part
  if (hi->kind == KConcat) return mkConcat(hi->a, mkConcat(hi->b, lo));  // right-nested
  // hi extract + lo concat whose head is adjacent
  if (lo->kind == KConcat) {
    E h2 = lo->a;
    if (hi->kind == KExtract && h2->kind == KExtract && hi->a == h2->a &&
        (unsigned)hi->val == (unsigned)h2->val + h2->width)
      return mkConcat(mkExtract(hi->a, (unsigned)h2->val, hi->width + h2->width), lo->b);
    if (hi->isConst() && h2->isConst() && hi->width + h2->width <= 128)
      return mkConcat(mkConst((hi->val << h2->width) | h2->val, hi->width + h2->width), lo->b);
  }
  // zext(extract..) head: hi = 0-extended piece
  if (hi->kind == KZExt) {
    E inner = mkConcat(hi->a, lo);
    return mkZExt(inner, w);
  }
  return intern(KConcat, w, 0, hi, lo);
}

E mkZExt(E a, unsigned w) {
  if (w == a->width) return a;
  if (a->isConst()) return mkConst(a->val, w);
  if (a->kind == KZExt) return mkZExt(a->a, w);
  if (a->kind == KIte && a->b->isConst() && a->c->isConst())
    return mkIte(a->a, mkConst(a->b->val, w), mkConst(a->c->val, w));
  return intern(KZExt, w, 0, a);
}
E mkSExt(E a, unsigned w) {
  if (w == a->width) return a;
  if (a->isConst()) return mkConst((u128)sextW(a->val, a->width), w);
  if (a->kind == KSExt) return mkSExt(a->a, w);
  if (a->kind == KZExt) return mkZExt(a->a, w);
  if (a->kind == KIte && a->b->isConst() && a->c->isConst())
    return mkIte(a->a, mkSExt(a->b, w), mkSExt(a->c, w));
  return intern(KSExt, w, 0, a);
}

E mkIte(E c, E a, E b) {
  if (c->isConst()) return c->val ? a : b;
  if (a == b) return a;
  if (a->width == 1) {
    if (a->isConst() && b->isConst()) return a->val ? c : mkNot(c);
    if (a->isConst()) return a->val ? mkBin(KOr, c, b) : mkBin(KAnd, mkNot(c), b);
    if (b->isConst()) return b->val ? mkBin(KOr, mkNot(c), a) : mkBin(KAnd, c, a);
  }
  // ite(not c, a, b)
  if (c->kind == KEq && c->b->isConst() && c->b->width == 1 && c->b->val == 0)
    return mkIte(c->a, b, a);
  if (a->kind == KIte && a->a == c) a = a->b;
  if (b->kind == KIte && b->a == c) b = b->c;
  if (a == b) return a;
  return intern(KIte, a->width, 0, c, a, b);
}

E mkFP(Kind k, E a, E b, unsigned w) {
  if (a->isConst() && (!b || b->isConst()))
    return mkConst(fpOp(k, a->val, b ? b->val : 0, a->width, w), w);
  return intern(k, w, 0, a, b);
}

E byteOf(E v, unsigned i) {
  RawScope raw;
  return mkExtract(v, 8 * i, 8);
}

E combineBytes(const E* bytes, unsigned n) {
  E r = bytes[n - 1];
  {
    RawScope raw;
    for (int i = (int)n - 2; i >= 0; i--) r = mkConcat(r, bytes[i]);
  }
  if (r->kind == KExtract) return mkExtract(r->a, (unsigned)r->val, r->width);
  if (r->kind == KZExt && r->a->kind == KExtract)
    return mkZExt(mkExtract(r->a->a, (unsigned)r->a->val, r->a->width), r->width);
  return r;
}

E mkBswap(E v) {
  unsigned n = v->width / 8;
  std::vector<E> b(n);
  for (unsigned i = 0; i < n; i++) b[n - 1 - i] = byteOf(v, i);
  return combineBytes(b.data(), n);
}

// ---- IEEE comparisons at bit level -----------------------------------------
static E expMask(unsigned w) { return w == 64 ? mkConst(0x7ff0000000000000ull, 64) : mkConst(0x7f800000u, 32); }
static E absBits(E a) { return mkZExt(mkExtract(a, 0, a->width - 1), a->width); }
E fpIsNan(E a) { return mkBin(KUlt, expMask(a->width), absBits(a)); }
static E bothZero(E a, E b) {
  unsigned w = a->width;
  return mkBin(KAnd, mkEq(mkExtract(a, 0, w - 1), mkConst(0, w - 1)),
               mkEq(mkExtract(b, 0, w - 1), mkConst(0, w - 1)));
}
static E ordered(E a, E b) { return mkBin(KAnd, mkNot(fpIsNan(a)), mkNot(fpIsNan(b))); }
E fpEq(E a, E b) {
  if (a->isConst() && b->isConst()) {
    if (a->width == 64) return mkConst(bitsToDouble(a->u64()) == bitsToDouble(b->u64()), 1);
    return mkConst(bitsToFloat((uint32_t)a->u64()) == bitsToFloat((uint32_t)b->u64()), 1);
  }
  return mkBin(KAnd, ordered(a, b), mkBin(KOr, mkEq(a, b), bothZero(a, b)));
}
E fpLt(E a, E b) {
  if (a->isConst() && b->isConst()) {
    if (a->width == 64) return mkConst(bitsToDouble(a->u64()) < bitsToDouble(b->u64()), 1);
    return mkConst(bitsToFloat((uint32_t)a->u64()) < bitsToFloat((uint32_t)b->u64()), 1);
  }
  unsigned w = a->width;
  E sa = mkExtract(a, w - 1, 1), sb = mkExtract(b, w - 1, 1);
  E lt = mkIte(sa, mkIte(sb, mkBin(KUlt, b, a), mkTrue()), mkIte(sb, mkFalse(), mkBin(KUlt, a, b)));
  return mkBin(KAnd, mkBin(KAnd, ordered(a, b), mkNot(bothZero(a, b))), lt);
}
E fpLe(E a, E b) { return mkBin(KOr, fpLt(a, b), fpEq(a, b)); }

// ---- evaluation -------------------------------------------------------------
static u128 evalRec(E e, const Model& m) {
  if (e->kind == KConst) return e->val;
  if (e->kind == KSym) return (uint64_t)e->val < m.size() ? m[(uint64_t)e->val] : 0;
  if (e->epoch == gEpoch) return e->memo;
  u128 r = 0;
  switch (e->kind) {
    case KConcat: r = (evalRec(e->a, m) << e->b->width) | evalRec(e->b, m); break;
    case KExtract: r = (evalRec(e->a, m) >> (unsigned)e->val) & maskW(e->width); break;
    case KZExt: r = evalRec(e->a, m); break;
    case KSExt: r = (u128)sextW(evalRec(e->a, m), e->a->width) & maskW(e->width); break;
    case KIte: r = evalRec(e->a, m) ? evalRec(e->b, m) : evalRec(e->c, m); break;
    case KFAdd: case KFSub: case KFMul: case KFDiv:
    case KUIToFP: case KSIToFP: case KFPToUI: case KFPToSI: case KFPExt: case KFPTrunc:
      r = fpOp(e->kind, evalRec(e->a, m), e->b ? evalRec(e->b, m) : 0, e->a->width, e->width);
      break;
    default: r = binOp(e->kind, evalRec(e->a, m), evalRec(e->b, m), e->a->width); break;
  }
  e->epoch = gEpoch;
  e->memo = r;
  return r;
}
u128 evalExpr(E e, const Model& m) {
  if (e->isConst()) return e->val;
  gEpoch++;
  return evalRec(e, m);
}

// ---- Z3 ---------------------------------------------------------------------
static Z3_ast inc(Z3_ast a) { Z3_inc_ref(Z, a); return a; }
static Z3_sort incs(Z3_sort s) { Z3_inc_ref(Z, Z3_sort_to_ast(Z, s)); return s; }
// Sorts, rounding modes and temporaries are referenced for good: an unreferenced
// Z3 object dies at the next API call.
static Z3_sort bvs(unsigned w) {
  static Z3_sort c[257];
  if (w > 256) return incs(Z3_mk_bv_sort(Z, w));
  if (!c[w]) c[w] = incs(Z3_mk_bv_sort(Z, w));
  return c[w];
}
static Z3_sort fps(unsigned w) {
  static Z3_sort s64, s32;
  if (!s64) { s64 = incs(Z3_mk_fpa_sort_64(Z)); s32 = incs(Z3_mk_fpa_sort_32(Z)); }
  return w == 64 ? s64 : s32;
}
static Z3_ast rne() { static Z3_ast r; if (!r) r = inc(Z3_mk_fpa_rne(Z)); return r; }
static Z3_ast rtz() { static Z3_ast r; if (!r) r = inc(Z3_mk_fpa_rtz(Z)); return r; }
static Z3_ast num(uint64_t v, unsigned w) { return inc(Z3_mk_unsigned_int64(Z, v, bvs(w))); }
static Z3_ast toFPA(E e) { return inc(Z3_mk_fpa_to_fp_bv(Z, toZ3(e), fps(e->width))); }
static Z3_ast ieee(Z3_ast f) { return inc(Z3_mk_fpa_to_ieee_bv(Z, inc(f))); }
static Z3_ast boolToBv(Z3_ast b) { Z3_ast o = num(1, 1), z = num(0, 1); return Z3_mk_ite(Z, b, o, z); }

Z3_ast toZ3Bool(E e) {
  if (e->zb) return e->zb;
  Z3_ast r;
  if (e->kind == KConst) r = e->val ? Z3_mk_true(Z) : Z3_mk_false(Z);
  else if (e->kind == KEq) {
    if (e->a->width == 1) {
      if (e->b->isConst()) r = e->b->val ? toZ3Bool(e->a) : Z3_mk_not(Z, toZ3Bool(e->a));
      else r = Z3_mk_iff(Z, toZ3Bool(e->a), toZ3Bool(e->b));
    } else r = Z3_mk_eq(Z, toZ3(e->a), toZ3(e->b));
  } else if (e->kind == KUlt) r = Z3_mk_bvult(Z, toZ3(e->a), toZ3(e->b));
  else if (e->kind == KUle) r = Z3_mk_bvule(Z, toZ3(e->a), toZ3(e->b));
  else if (e->kind == KSlt) r = Z3_mk_bvslt(Z, toZ3(e->a), toZ3(e->b));
  else if (e->kind == KSle) r = Z3_mk_bvsle(Z, toZ3(e->a), toZ3(e->b));
  else if (e->kind == KAnd) { Z3_ast x[2] = {toZ3Bool(e->a), toZ3Bool(e->b)}; r = Z3_mk_and(Z, 2, x); }
  else if (e->kind == KOr) { Z3_ast x[2] = {toZ3Bool(e->a), toZ3Bool(e->b)}; r = Z3_mk_or(Z, 2, x); }
  else if (e->kind == KXor) r = Z3_mk_xor(Z, toZ3Bool(e->a), toZ3Bool(e->b));
  else if (e->kind == KIte) r = Z3_mk_ite(Z, toZ3Bool(e->a), toZ3Bool(e->b), toZ3Bool(e->c));
  else r = Z3_mk_eq(Z, toZ3(e), num(1, 1));
  e->zb = inc(r);
  return e->zb;
}

Z3_ast toZ3(E e) {
  if (e->z) return e->z;
  Z3_ast r = nullptr;
  switch (e->kind) {
    case KConst:
      if (e->width <= 64) r = num((uint64_t)e->val, e->width);
      else r = Z3_mk_concat(Z, num((uint64_t)(e->val >> 64), e->width - 64), num((uint64_t)e->val, 64));
      break;
    case KSym: r = Z3_mk_const(Z, Z3_mk_int_symbol(Z, (int)(uint64_t)e->val), bvs(8)); break;
    case KAdd: r = Z3_mk_bvadd(Z, toZ3(e->a), toZ3(e->b)); break;
    case KSub: r = Z3_mk_bvsub(Z, toZ3(e->a), toZ3(e->b)); break;
    case KMul: r = Z3_mk_bvmul(Z, toZ3(e->a), toZ3(e->b)); break;
    case KUDiv: r = Z3_mk_bvudiv(Z, toZ3(e->a), toZ3(e->b)); break;
    case KSDiv: r = Z3_mk_bvsdiv(Z, toZ3(e->a), toZ3(e->b)); break;
    case KURem: r = Z3_mk_bvurem(Z, toZ3(e->a), toZ3(e->b)); break;
    case KSRem: r = Z3_mk_bvsrem(Z, toZ3(e->a), toZ3(e->b)); break;
    case KAnd:
      if (e->width == 1) r = boolToBv(toZ3Bool(e));
      else r = Z3_mk_bvand(Z, toZ3(e->a), toZ3(e->b));
      break;
    case KOr:
      if (e->width == 1) r = boolToBv(toZ3Bool(e));
      else r = Z3_mk_bvor(Z, toZ3(e->a), toZ3(e->b));
      break;
    case KXor: r = Z3_mk_bvxor(Z, toZ3(e->a), toZ3(e->b)); break;
    case KShl: r = Z3_mk_bvshl(Z, toZ3(e->a), toZ3(e->b)); break;
    case KLShr: r = Z3_mk_bvlshr(Z, toZ3(e->a), toZ3(e->b)); break;
    case KAShr: r = Z3_mk_bvashr(Z, toZ3(e->a), toZ3(e->b)); break;
    case KEq: case KUlt: case KUle: case KSlt: case KSle: r = boolToBv(toZ3Bool(e)); break;
    case KConcat: r = Z3_mk_concat(Z, toZ3(e->a), toZ3(e->b)); break;
    case KExtract: r = Z3_mk_extract(Z, (unsigned)e->val + e->width - 1, (unsigned)e->val, toZ3(e->a)); break;
    case KZExt: r = Z3_mk_zero_ext(Z, e->width - e->a->width, toZ3(e->a)); break;
    case KSExt: r = Z3_mk_sign_ext(Z, e->width - e->a->width, toZ3(e->a)); break;
    case KIte: r = Z3_mk_ite(Z, toZ3Bool(e->a), toZ3(e->b), toZ3(e->c)); break;
    default: {
      Z3_ast rm = rne();
      Z3_ast x = nullptr, y = nullptr;
      if (e->kind == KFAdd || e->kind == KFSub || e->kind == KFMul || e->kind == KFDiv) { x = toFPA(e->a); y = toFPA(e->b); }
      else if (e->kind == KFPToUI || e->kind == KFPToSI || e->kind == KFPExt || e->kind == KFPTrunc) x = toFPA(e->a);
      else x = toZ3(e->a);
      switch (e->kind) {
        case KFAdd: r = ieee(Z3_mk_fpa_add(Z, rm, x, y)); break;
        case KFSub: r = ieee(Z3_mk_fpa_sub(Z, rm, x, y)); break;
        case KFMul: r = ieee(Z3_mk_fpa_mul(Z, rm, x, y)); break;
        case KFDiv: r = ieee(Z3_mk_fpa_div(Z, rm, x, y)); break;
        case KUIToFP: r = ieee(Z3_mk_fpa_to_fp_unsigned(Z, rm, x, fps(e->width))); break;
        case KSIToFP: r = ieee(Z3_mk_fpa_to_fp_signed(Z, rm, x, fps(e->width))); break;
        case KFPToUI: r = Z3_mk_fpa_to_ubv(Z, rtz(), x, e->width); break;
        case KFPToSI: r = Z3_mk_fpa_to_sbv(Z, rtz(), x, e->width); break;
        case KFPExt: r = ieee(Z3_mk_fpa_to_fp_float(Z, rm, x, fps(64))); break;
        case KFPTrunc: r = ieee(Z3_mk_fpa_to_fp_float(Z, rm, x, fps(32))); break;
        default: abort();
      }
    }
  }
  e->z = inc(r);
  return e->z;
}

std::string exprStr(E e, int depth) {
  static const char* n[] = {"const", "sym", "add", "sub", "mul", "udiv", "sdiv", "urem", "srem", "and", "or", "xor",
                            "shl", "lshr", "ashr", "eq", "ult", "ule", "slt", "sle", "concat", "extract", "zext", "sext",
                            "ite", "fadd", "fsub", "fmul", "fdiv", "uitofp", "sitofp", "fptoui", "fptosi", "fpext", "fptrunc"};
  char buf[64];
  if (e->isConst()) { snprintf(buf, sizeof buf, "%llu:%u", (unsigned long long)e->u64(), e->width); return buf; }
  if (e->kind == KSym) { snprintf(buf, sizeof buf, "%s%u", e->uninit ? "U" : "s", (unsigned)e->u64()); return buf; }
  if (depth == 0) return "..";
  std::string s = std::string("(") + n[e->kind];
  if (e->kind == KExtract || e->kind == KZExt || e->kind == KSExt) { snprintf(buf, sizeof buf, "[%u+%u]", (unsigned)e->u64(), e->width); s += buf; }
  for (E x : {e->a, e->b, e->c}) if (x) s += " " + exprStr(x, depth - 1);
  return s + ")";
}
