// symx: bounded symbolic executor for LLVM IR (the real code, lowered by clang),
// deciding path conditions and assertions with Z3.
#include <llvm/IR/Constants.h>
#include <llvm/IR/DataLayout.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IR/Function.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IR/InstrTypes.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>
#include <llvm/IR/Operator.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Support/SourceMgr.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>

#include <algorithm>
#include <array>
#include <cmath>
#include <deque>
#include <map>
#include <memory>
#include <bitset>
#include <set>
#include <string>

#include "expr.h"

using namespace llvm;

// ------------------------------------------------------------------ options
static double optMaxTime = 60;
static uint64_t optMaxSteps = 3000000;
static uint64_t optMaxPaths = 100000000;
static uint64_t optConcLimit = 4096;
static unsigned optQueryMs = 20000;
static int optJobs = 1;
static bool optUninit = true;
static bool optCheckSolver = false;
static int optSamples = 6;
static std::string optOut;
static std::string optEntry = "sx_main";
static int optVerbose = 0;
static uint64_t optMaxAlloc = 16u << 20;
static int optMaxErr = 8;

static double now() {
  timespec t;
  clock_gettime(CLOCK_MONOTONIC, &t);
  return t.tv_sec + t.tv_nsec * 1e-9;
}
static double tStart, tDeadline;

static void die(const std::string& m) {
  fprintf(stderr, "symx: %s\n", m.c_str());
  exit(3);
}

// ------------------------------------------------------------------ stats
struct Stats {
  uint64_t paths = 0, cut = 0, queries = 0, z3queries = 0, cacheHits = 0, domainQueries = 0, crossChecked = 0, unknown = 0,
           steps = 0, forks = 0, asserts = 0, assertChecks = 0, assumesPruned = 0, memChecks = 0, boundCut = 0,
           errPaths = 0;
  double z3time = 0, maxQuery = 0;
} st;
static std::map<std::string, uint64_t> covers;
static std::set<std::string> funcsRun;
static std::map<std::string, uint64_t> cutReasons;

// ------------------------------------------------------------------ memory
static const unsigned kObjShift = 40;
static const uint64_t kObjBase = 1ull << 39;
enum ObjKind : uint8_t { OGlobal, OStack, OHeap, OFunc, OVararg };
struct Obj {
  uint32_t id = 0;
  uint64_t size = 0;
  ObjKind kind = OGlobal;
  bool alive = true, readonly = false, isNewArr = false;
  uint8_t allocFamily = 0;  // 1 malloc, 2 new, 3 new[]
  std::vector<uint8_t> c;
  std::vector<E> s;         // empty if fully concrete; nullptr entries are concrete
  std::vector<uint8_t> un;  // empty if fully initialised
  std::string name;
};
typedef std::shared_ptr<Obj> ObjP;
typedef std::array<ObjP, 64> Chunk;

struct Frame;
struct KInst {
  Instruction* I;
  unsigned op;
  int dest = -1;
  std::vector<int> ops;  // >=0 register, <0 constant ~idx
  unsigned width = 0;    // result width
  int t1 = -1, t2 = -1;  // branch targets (block indices)
  std::vector<std::pair<uint64_t, int>> gep;  // (scale, operand)
  uint64_t gepConst = 0;
  Function* callee = nullptr;
  int builtin = -1;
};
struct KBlock {
  unsigned first, firstNonPhi;
  BasicBlock* bb;
};
struct KFunc {
  Function* F;
  std::vector<KInst> insts;
  std::vector<KBlock> blocks;
  std::map<BasicBlock*, int> bidx;
  unsigned nregs = 0;
  std::string name;
};

struct Frame {
  KFunc* kf;
  std::vector<E> regs;
  std::vector<uint32_t> allocas;
  unsigned pc = 0;
  int prevBlock = -1;
  uint64_t varargs = 0;  // address of the vararg area
  bool isInvokeCallee = false;
  bool again = false;  // on return the caller repeats its instruction
};

struct InputRec {
  std::string name;
  uint32_t start, n;
};

struct State {
  std::vector<Frame> stack;
  std::vector<std::shared_ptr<Chunk>> mem;
  uint32_t nextObj = 1;
  std::vector<E> pc;
  std::unordered_set<E> pcset;
  Model model;
  std::vector<InputRec> inputs;
  uint32_t inputCursor = 0, uninitCursor = 0;
  std::vector<E> observes;
  std::vector<std::pair<uint32_t, E>> dummy;
  uint64_t steps = 0;
  int64_t failAlloc = -1;  // remaining allocations before one fails; -1 off
  int lazyFail = 0, lazyLeft = 0;  // any of the allocations may fail, this many in all / still
  E lazyChoice = nullptr;
  uint64_t liveHeap = 0;
  uint64_t concCount = 0;
  std::map<const void*, uint32_t> concAt;
  std::vector<uint64_t> frees;
  // exception in flight
  uint64_t excPtr = 0, excType = 0, excDtor = 0;  // the exception in flight
  struct Caught { uint64_t ptr, type, dtor; bool again; };
  std::vector<Caught> caught;
  int32_t excSel = 0;
  std::vector<std::string> coversSeen;
};

static std::vector<State*> work;
static std::vector<E> inputSyms, uninitSyms;
static Module* M;
static const DataLayout* DL;
static std::unordered_map<const Function*, KFunc*> kfuncs;
static std::unordered_map<const GlobalValue*, uint64_t> gaddr;
static std::unordered_map<uint32_t, Function*> funcById;
static std::vector<E> consts;               // constant operand pool
static std::vector<bool> constIsUndef;
static std::unordered_map<const Constant*, int> constIdx;

static uint64_t objAddr(uint32_t id) { return ((uint64_t)id << kObjShift) | kObjBase; }
static uint32_t addrObj(uint64_t a) { return (uint32_t)(a >> kObjShift); }

static Obj* getObj(State& s, uint32_t id) {
  uint32_t ch = id >> 6;
  if (ch >= s.mem.size() || !s.mem[ch]) return nullptr;
  return (*s.mem[ch])[id & 63].get();
}
static Obj* getObjW(State& s, uint32_t id) {
  uint32_t ch = id >> 6;
  auto& cp = s.mem[ch];
  if (cp.use_count() > 1) cp = std::make_shared<Chunk>(*cp);
  auto& op = (*cp)[id & 63];
  if (op.use_count() > 1) op = std::make_shared<Obj>(*op);
  return op.get();
}
static void setObj(State& s, uint32_t id, ObjP o) {
  uint32_t ch = id >> 6;
  if (ch >= s.mem.size()) s.mem.resize(ch + 1);
  auto& cp = s.mem[ch];
  if (!cp) cp = std::make_shared<Chunk>();
  else if (cp.use_count() > 1) cp = std::make_shared<Chunk>(*cp);
  (*cp)[id & 63] = o;
}
static uint32_t newObj(State& s, uint64_t size, ObjKind k, bool uninit, const std::string& name) {
  uint32_t id = s.nextObj++;
  auto o = std::make_shared<Obj>();
  o->id = id;
  o->size = size;
  o->kind = k;
  o->c.assign(size, uninit ? 0xCD : 0);
  if (uninit && size) o->un.assign(size, 1);
  o->name = name;
  setObj(s, id, o);
  return id;
}

static E freshUninit(State& s) {
  uint32_t k = s.uninitCursor++;
  while (k >= uninitSyms.size()) uninitSyms.push_back(mkSym(true));
  return uninitSyms[k];
}

static E readByte(State& s, Obj*& o, uint64_t off) {
  if (!o->un.empty() && o->un[off]) {
    o = getObjW(s, o->id);
    if (o->s.empty()) o->s.assign(o->size, nullptr);
    o->s[off] = freshUninit(s);
    o->un[off] = 0;
  }
  if (!o->s.empty() && o->s[off]) return o->s[off];
  return mkConst(o->c[off], 8);
}
static void writeByte(Obj* o, uint64_t off, E v) {
  if (!o->un.empty()) o->un[off] = 0;
  if (v->isConst()) {
    o->c[off] = (uint8_t)v->u64();
    if (!o->s.empty()) o->s[off] = nullptr;
  } else {
    if (o->s.empty()) o->s.assign(o->size, nullptr);
    o->s[off] = v;
  }
}
static E readMem(State& s, Obj* o, uint64_t off, unsigned bytes) {
  // concrete fast path
  if (o->s.empty() && o->un.empty() && bytes <= 16) {
    u128 v = 0;
    for (unsigned i = 0; i < bytes; i++) v |= (u128)o->c[off + i] << (8 * i);
    return mkConst(v, bytes * 8);
  }
  E b[64];
  std::vector<E> big;
  E* p = b;
  if (bytes > 64) { big.resize(bytes); p = big.data(); }
  for (unsigned i = 0; i < bytes; i++) p[i] = readByte(s, o, off + i);
  return combineBytes(p, bytes);
}
static void writeMem(State& s, uint32_t id, uint64_t off, E v, unsigned bytes) {
  Obj* o = getObjW(s, id);
  if (v->width != bytes * 8) v = mkZExt(v, bytes * 8);
  for (unsigned i = 0; i < bytes; i++) writeByte(o, off + i, byteOf(v, i));
}

// ------------------------------------------------------------------ solver
enum Res { Sat, Unsat, Unknown };
static Z3_solver zsBV = nullptr, zsFP = nullptr;

struct VecHash {
  size_t operator()(const std::vector<uint32_t>& v) const {
    uint64_t h = 1469598103934665603ull;
    for (uint32_t x : v) h = (h ^ x) * 1099511628211ull;
    return h;
  }
};
struct CacheEnt {
  Res r;
  std::vector<std::pair<uint32_t, uint8_t>> m;
};
static std::unordered_map<std::vector<uint32_t>, CacheEnt, VecHash> qcache;

static bool hasFP(E e, std::unordered_map<E, bool>& memo) {
  if (e->kind == KConst || e->kind == KSym) return false;
  auto it = memo.find(e);
  if (it != memo.end()) return it->second;
  bool r = e->kind >= KFAdd;
  for (E x : {e->a, e->b, e->c})
    if (!r && x) r = hasFP(x, memo);
  memo[e] = r;
  return r;
}
static std::unordered_map<E, bool> fpMemo;

static Res z3check(const std::vector<E>& cs, const SymSet& syms, std::vector<std::pair<uint32_t, uint8_t>>& mout) {
  st.z3queries++;
  double t0 = now();
  bool fp = false;
  for (E e : cs) fp |= hasFP(e, fpMemo);
  Z3_solver& zs = fp ? zsFP : zsBV;
  if (!zs) {
    zs = fp ? Z3_mk_solver(Z) : Z3_mk_solver_for_logic(Z, Z3_mk_string_symbol(Z, "QF_BV"));
    Z3_solver_inc_ref(Z, zs);
    Z3_params p = Z3_mk_params(Z);
    Z3_params_inc_ref(Z, p);
    Z3_params_set_uint(Z, p, Z3_mk_string_symbol(Z, "timeout"), optQueryMs);
    Z3_solver_set_params(Z, zs, p);
    Z3_params_dec_ref(Z, p);
  }
  Z3_solver_push(Z, zs);
  for (E e : cs) Z3_solver_assert(Z, zs, toZ3Bool(e));
  Z3_lbool r = Z3_solver_check(Z, zs);
  Res res = r == Z3_L_TRUE ? Sat : r == Z3_L_FALSE ? Unsat : Unknown;
  if (res == Sat) {
    Z3_model m = Z3_solver_get_model(Z, zs);
    Z3_model_inc_ref(Z, m);
    for (uint32_t sy : syms) {
      Z3_ast v;
      uint64_t u = 0;
      if (Z3_model_eval(Z, m, toZ3(symExpr(sy)), true, &v)) {
        Z3_inc_ref(Z, v);
        unsigned long long tmp = 0;
        Z3_get_numeral_uint64(Z, v, (uint64_t*)&tmp);
        u = tmp;
        Z3_dec_ref(Z, v);
      }
      mout.push_back({sy, (uint8_t)u});
    }
    Z3_model_dec_ref(Z, m);
  }
  Z3_solver_pop(Z, zs, 1);
  double dt = now() - t0;
  st.z3time += dt;
  if (dt > st.maxQuery) st.maxQuery = dt;
  static const double slow = getenv("SX_SLOW") ? atof(getenv("SX_SLOW")) : 0;
  if (slow > 0 && dt > slow) for (E e : cs) fprintf(stderr, "slow %.2f %s\n", dt, exprStr(e, 14).c_str());
  return res;
}

// Complete finite-domain decision: every byte variable's values allowed by the
// constraints on it alone, then all combinations (pruned) of those values.
// Unknown = too many combinations, left to Z3.
static std::unordered_map<E, std::bitset<256>> unaryMemo;
static const std::bitset<256>& unaryMask(E e) {
  auto it = unaryMemo.find(e);
  if (it != unaryMemo.end()) return it->second;
  uint32_t sy = (*e->syms)[0];
  static Model t;
  if (t.size() <= sy) t.resize(sy + 1, 0);
  std::bitset<256> b;
  for (int k = 0; k < 256; k++) {
    t[sy] = (uint8_t)k;
    b[k] = evalExpr(e, t) != 0;
  }
  t[sy] = 0;
  return unaryMemo.emplace(e, b).first->second;
}
static Res domainSolve(const std::vector<E>& cs, const SymSet& first, const SymSet& syms, const Model& cur,
                       std::vector<std::pair<uint32_t, uint8_t>>& out) {
  size_t k = syms.size();
  if (k > 12) return Unknown;
  std::vector<uint32_t> order(first.begin(), first.end());
  for (uint32_t y : syms)
    if (!std::binary_search(first.begin(), first.end(), y)) order.push_back(y);
  auto posOf = [&](uint32_t y) { for (size_t i = 0; i < k; i++) if (order[i] == y) return i; return k; };
  std::vector<std::bitset<256>> dom(k);
  for (auto& d : dom) d.set();
  std::vector<std::vector<E>> at(k);
  bool fp = false;
  for (E e : cs) {
    if (e->isConst()) { if (!e->val) return Unsat; continue; }
    const SymSet& q = *e->syms;
    if (q.size() == 1) { dom[posOf(q[0])] &= unaryMask(e); continue; }
    size_t last = 0;
    for (uint32_t y : q) last = std::max(last, posOf(y));
    at[last].push_back(e);
    fp |= hasFP(e, fpMemo);
  }
  double prod = 1;
  std::vector<std::vector<uint8_t>> vals(k);
  for (size_t i = 0; i < k; i++) {
    size_t n = dom[i].count();
    if (n == 0) return Unsat;
    prod *= (double)n;
    uint8_t start = order[i] < cur.size() ? cur[order[i]] : 0;
    for (int v = 0; v < 256; v++) if (dom[i][(uint8_t)(start + v)]) vals[i].push_back((uint8_t)(start + v));
  }
  if (prod > (fp ? 1e6 : 2e4)) return Unknown;
  uint32_t mx = 0;
  for (uint32_t y : order) mx = std::max(mx, y);
  static Model t;
  if (t.size() <= mx) t.resize(mx + 1, 0);
  std::vector<size_t> ix(k, 0);
  size_t d = 0;
  while (true) {
    if (ix[d] >= vals[d].size()) {
      if (d == 0) return Unsat;
      ix[d] = 0;
      d--;
      ix[d]++;
      continue;
    }
    t[order[d]] = vals[d][ix[d]];
    bool ok = true;
    for (E e : at[d]) if (!evalExpr(e, t)) { ok = false; break; }
    if (!ok) { ix[d]++; continue; }
    if (d + 1 == k) {
      for (size_t i = 0; i < k; i++) out.push_back({order[i], vals[i][ix[i]]});
      return Sat;
    }
    d++;
    ix[d] = 0;
  }
}

// Is pc /\ extra satisfiable?  On Sat, `out` is s.model updated on the slice.
static Res solve(State& s, E extra, Model& out) {
  st.queries++;
  if (extra->isConst() && !extra->val) return Unsat;
  // independent slice
  std::vector<E> cs{extra};
  SymSet syms = *extra->syms;
  std::vector<uint8_t> used(s.pc.size(), 0);
  bool ch = true;
  while (ch) {
    ch = false;
    for (size_t i = 0; i < s.pc.size(); i++) {
      if (used[i]) continue;
      const SymSet& q = *s.pc[i]->syms;
      bool inter = false;
      // sorted intersection test
      size_t x = 0, y = 0;
      while (x < q.size() && y < syms.size()) {
        if (q[x] < syms[y]) x++;
        else if (q[x] > syms[y]) y++;
        else { inter = true; break; }
      }
      if (inter) {
        used[i] = 1;
        cs.push_back(s.pc[i]);
        if (!std::includes(syms.begin(), syms.end(), q.begin(), q.end())) {
          SymSet r;
          std::set_union(syms.begin(), syms.end(), q.begin(), q.end(), std::back_inserter(r));
          syms.swap(r);
          ch = true;
        }
      }
    }
  }
  auto apply = [&](const std::vector<std::pair<uint32_t, uint8_t>>& m) {
    out = s.model;
    for (auto& p : m) {
      if (p.first >= out.size()) out.resize(p.first + 1, 0);
      out[p.first] = p.second;
    }
  };
  if (syms.size() == 1) {
    // complete 8-bit domain decision
    st.domainQueries++;
    uint32_t sy = syms[0];
    Model t(sy + 1, 0);
    bool found = false;
    uint8_t start = sy < s.model.size() ? s.model[sy] : 0;
    uint8_t val = 0;
    for (int k = 0; k < 256 && !found; k++) {
      t[sy] = (uint8_t)(start + k);
      bool ok = true;
      for (E e : cs)
        if (!evalExpr(e, t)) { ok = false; break; }
      if (ok) { found = true; val = t[sy]; }
    }
    if (optCheckSolver) {
      std::vector<std::pair<uint32_t, uint8_t>> mm;
      Res r = z3check(cs, syms, mm);
      if ((r == Sat) != found) die("domain solver disagrees with z3");
    }
    if (!found) return Unsat;
    apply({{sy, val}});
    return Sat;
  }
  std::vector<uint32_t> key;
  for (E e : cs) key.push_back(e->id);
  std::sort(key.begin(), key.end());
  auto it = qcache.find(key);
  if (it != qcache.end()) {
    st.cacheHits++;
    if (it->second.r == Sat) apply(it->second.m);
    return it->second.r;
  }
  CacheEnt ce;
  ce.r = Unknown;
  {
    // the condition with only the constraints on its own variables, then the whole slice
    const SymSet& own = *extra->syms;
    std::vector<E> sub;
    for (E e : cs)
      if (std::includes(own.begin(), own.end(), e->syms->begin(), e->syms->end())) sub.push_back(e);
    ce.r = domainSolve(sub, own, own, s.model, ce.m);
    if (ce.r == Sat && sub.size() != cs.size()) {
      ce.m.clear();
      ce.r = domainSolve(cs, own, syms, s.model, ce.m);
    }
    if (ce.r != Unknown) {
      st.domainQueries++;
      // the first decisions and a sample of the rest are put to Z3 as well
      static uint64_t seen = 0;
      bool cross = optCheckSolver;
      if (!cross && (++seen <= 12 || seen % 4096 == 0)) {
        cross = true;
        for (E e : cs) if (hasFP(e, fpMemo)) cross = false;
      }
      if (cross) {
        std::vector<std::pair<uint32_t, uint8_t>> mm;
        Res r = z3check(cs, syms, mm);
        if (r != Unknown && r != ce.r) die("domain solver disagrees with z3");
        st.crossChecked++;
      }
      if (ce.r == Sat) apply(ce.m);
      qcache.emplace(std::move(key), ce);
      return ce.r;
    }
    ce.m.clear();
  }
  ce.r = z3check(cs, syms, ce.m);
  if (ce.r == Sat) {
    apply(ce.m);
    for (E e : cs)
      if (!evalExpr(e, out)) {
        ce.r = Unknown;  // model not reproduced by the evaluator (e.g. NaN payload)
        break;
      }
  }
  if (ce.r == Unknown) st.unknown++;
  qcache.emplace(std::move(key), ce);
  return ce.r;
}

static void addPC(State& s, E c) {
  if (c->isConst()) return;
  // split conjunctions for better slicing
  if (c->kind == KAnd && c->width == 1) {
    addPC(s, c->a);
    addPC(s, c->b);
    return;
  }
  if (s.pcset.insert(c).second) s.pc.push_back(c);
}

// ------------------------------------------------------------------ errors
struct ErrRec {
  std::string kind, loc, func, msg, stack;
  std::vector<std::pair<std::string, std::vector<uint8_t>>> inputs;
};
static std::vector<ErrRec> errors;
static std::map<std::string, int> errCount;
struct SampleRec {
  std::vector<std::pair<std::string, std::vector<uint8_t>>> inputs;
  std::vector<uint64_t> obs;
};
static std::vector<SampleRec> samples;
static uint64_t samplesSeen = 0;

static std::string locOf(const Instruction* I) {
  if (const DebugLoc& dl = I->getDebugLoc()) {
    const DILocation* L = dl.get();
    std::string f = L->getFilename().str();
    size_t p = f.rfind('/');
    if (p != std::string::npos) f = f.substr(p + 1);
    return f + ":" + std::to_string(L->getLine());
  }
  return "?";
}
static std::string stackStr(State& s) {
  std::string r;
  for (int i = (int)s.stack.size() - 1; i >= 0 && i > (int)s.stack.size() - 12; i--) {
    Frame& f = s.stack[i];
    if (f.pc < f.kf->insts.size()) r += f.kf->name + "@" + locOf(f.kf->insts[f.pc].I) + " < ";
  }
  return r;
}
static std::vector<std::pair<std::string, std::vector<uint8_t>>> concInputs(State& s, const Model& m) {
  std::vector<std::pair<std::string, std::vector<uint8_t>>> r;
  for (auto& in : s.inputs) {
    std::vector<uint8_t> v;
    for (uint32_t i = 0; i < in.n; i++) {
      uint32_t sy = (uint32_t)inputSyms[in.start + i]->u64();
      v.push_back(sy < m.size() ? m[sy] : 0);
    }
    r.push_back({in.name, v});
  }
  return r;
}
static void report(State& s, const std::string& kind, const std::string& msg, const Model& m) {
  Frame& f = s.stack.back();
  std::string loc = f.pc < f.kf->insts.size() ? locOf(f.kf->insts[f.pc].I) : "?";
  std::string key = kind + "|" + loc + "|" + msg;
  int& n = errCount[key];
  n++;
  if (n > optMaxErr) return;
  ErrRec e{kind, loc, f.kf->name, msg, stackStr(s), concInputs(s, m)};
  errors.push_back(e);
  if (optVerbose) fprintf(stderr, "ERR %s %s %s: %s\n   %s\n", kind.c_str(), loc.c_str(), f.kf->name.c_str(), msg.c_str(), e.stack.c_str());
}

struct PathEnd {};  // thrown to end the current path
static bool pathIsComplete;

[[noreturn]] static void endPath(State& s, const char* reason) {
  if (reason) {
    st.cut++;
    cutReasons[reason]++;
  }
  throw PathEnd();
}

// Decide a width-1 condition for the current state, forking the other side
// (the forked state re-executes the current instruction).
static bool decide(State& s, E cond) {
  if (cond->isConst()) return cond->val;
  if (s.pcset.count(cond)) return true;
  E nc = mkNot(cond);
  if (s.pcset.count(nc)) return false;
  if (cond->uninit && optUninit) {
    // does the outcome really depend on never-written memory?
    report(s, "uninit", "branch depends on uninitialised memory", s.model);
    st.errPaths++;
    throw PathEnd();
  }
  bool v = evalExpr(cond, s.model);
  E other = v ? nc : cond;
  Model m;
  Res r = solve(s, other, m);
  if (r == Unsat) return v;
  if (r == Unknown) {
    // undecided side: dropped and counted as cut
    st.cut++;
    cutReasons["solver-unknown"]++;
    addPC(s, v ? cond : nc);
    return v;
  }
  st.forks++;
  State* o = new State(s);
  addPC(*o, other);
  o->model = m;
  work.push_back(o);
  addPC(s, v ? cond : nc);
  return v;
}

// Force cond to be true on this path; returns false if impossible.
static bool assumeC(State& s, E cond) {
  if (cond->isConst()) return cond->val;
  if (s.pcset.count(cond)) return true;
  if (evalExpr(cond, s.model)) {
    addPC(s, cond);
    return true;
  }
  Model m;
  Res r = solve(s, cond, m);
  if (r == Sat) {
    addPC(s, cond);
    s.model = m;
    return true;
  }
  if (r == Unknown) {
    st.cut++;
    cutReasons["solver-unknown"]++;
  }
  return false;
}

static uint64_t concretize(State& s, E e, const void* site = nullptr) {
  if (e->isConst()) return e->u64();
  if (e->uninit && optUninit) {
    report(s, "uninit", "address or size depends on uninitialised memory", s.model);
    st.errPaths++;
    throw PathEnd();
  }
  uint64_t v = (uint64_t)evalExpr(e, s.model);
  E eq = mkEq(e, mkConst(v, e->width));
  if (s.pcset.count(eq)) return v;
  Model m;
  E ne = mkNot(eq);
  Res r = solve(s, ne, m);
  if (r == Sat) {
    if (++s.concAt[s.stack.back().kf->insts[s.stack.back().pc].I] > optConcLimit) {
      st.cut++;
      cutReasons["concretisation-limit"]++;
    } else {
      st.forks++;
      State* o = new State(s);
      addPC(*o, ne);
      o->model = m;
      work.push_back(o);
    }
  } else if (r == Unknown) {
    st.cut++;
    cutReasons["solver-unknown"]++;
  }
  addPC(s, eq);
  return v;
}

[[noreturn]] static void errorEnd(State& s, const std::string& kind, const std::string& msg, const Model& m) {
  report(s, kind, msg, m);
  st.errPaths++;
  throw PathEnd();
}

static std::string objDesc(State& s, uint64_t a) {
  if (addrObj(a) == 0) return "null page";
  Obj* o = getObj(s, addrObj(a));
  if (!o) return "no object";
  static const char* kn[] = {"global", "stack", "heap", "function", "vararg"};
  char b[160];
  snprintf(b, sizeof b, "%s %s of %llu bytes, offset %lld%s", kn[o->kind], o->name.c_str(), (unsigned long long)o->size,
           (long long)(a - objAddr(o->id)), o->alive ? "" : " (dead)");
  return b;
}

// Resolve an access of `bytes` at address expr; returns object and *offset expr*.
static Obj* resolve(State& s, E addr, uint64_t bytes, bool write, E* offOut) {
  st.memChecks++;
  if (addr->uninit && optUninit) errorEnd(s, "uninit", "pointer depends on uninitialised memory", s.model);
  uint64_t a = (uint64_t)evalExpr(addr, s.model);
  uint32_t id = addrObj(a);
  Obj* o = id ? getObj(s, id) : nullptr;
  bool valid = o && o->alive && o->kind != OFunc;
  uint64_t off = a - objAddr(id);
  if (valid && (off > o->size || bytes > o->size - off)) valid = false;
  if (!valid) {
    std::string what = write ? "write" : "read";
    std::string kind = id == 0 ? "null-deref" : (o && !o->alive) ? "use-after-free" : "out-of-bounds";
    errorEnd(s, kind, what + " of memory outside a live object", s.model);
  }
  if (write && o->readonly) errorEnd(s, "write-readonly", "write to constant memory", s.model);
  if (addr->isConst()) {
    *offOut = mkConst(off, 64);
    return o;
  }
  E offE = mkBin(KSub, addr, mkConst(objAddr(id), 64));
  E inb = mkBin(KUle, offE, mkConst(o->size - bytes, 64));
  // the model satisfies inb; fork the other side which re-executes and reports
  if (!inb->isConst() && !s.pcset.count(inb)) {
    Model m;
    Res r = solve(s, mkNot(inb), m);
    if (r == Sat) {
      st.forks++;
      State* n = new State(s);
      addPC(*n, mkNot(inb));
      n->model = m;
      work.push_back(n);
      addPC(s, inb);
    } else if (r == Unknown) {
      st.cut++;
      cutReasons["solver-unknown"]++;
      addPC(s, inb);
    }
  }
  *offOut = offE;
  return o;
}

static E loadMem(State& s, E addr, unsigned bytes) {
  E off;
  Obj* o = resolve(s, addr, bytes, false, &off);
  if (off->isConst()) return readMem(s, o, off->u64(), bytes);
  uint64_t n = o->size - bytes + 1;
  if (n <= 160) {
    // if-then-else over every in-bounds offset (aligned when provable by structure)
    uint64_t step = 1;
    E x = off;
    // crude alignment: concat with zero low bits
    if (x->kind == KConcat && x->b->isConst() && x->b->val == 0) step = 1ull << std::min<unsigned>(x->b->width, 6);
    if (x->kind == KZExt && x->a->kind == KConcat && x->a->b->isConst() && x->a->b->val == 0) step = 1ull << std::min<unsigned>(x->a->b->width, 6);
    E r = nullptr;
    for (uint64_t k = 0; k < n; k += step) {
      E v = readMem(s, o, k, bytes);
      o = getObj(s, o->id);
      r = r ? mkIte(mkEq(off, mkConst(k, 64)), v, r) : v;
    }
    return r;
  }
  uint32_t id = o->id;
  uint64_t v = concretize(s, off);
  return readMem(s, getObj(s, id), v, bytes);
}
static void storeMem(State& s, E addr, E v, unsigned bytes) {
  E off;
  Obj* o = resolve(s, addr, bytes, true, &off);
  uint32_t id = o->id;
  uint64_t k = concretize(s, off);
  writeMem(s, id, k, v, bytes);
}

// ------------------------------------------------------------------ constants
static uint64_t typeBytes(Type* T) { return DL->getTypeStoreSize(T).getFixedValue(); }
static unsigned typeBits(Type* T) {
  if (T->isPointerTy()) return 64;
  if (T->isIntegerTy()) return T->getIntegerBitWidth();
  if (T->isDoubleTy()) return 64;
  if (T->isFloatTy()) return 32;
  if (T->isVoidTy()) return 0;
  if (T->isX86_FP80Ty()) return 80;
  return (unsigned)DL->getTypeAllocSize(T).getFixedValue() * 8;
}
static E constExpr(const Constant* C, bool* undef);
static void fillConst(const Constant* C, std::vector<uint8_t>& out, uint64_t off) {
  Type* T = C->getType();
  if (isa<ConstantAggregateZero>(C) || isa<UndefValue>(C)) return;
  if (auto* CDS = dyn_cast<ConstantDataSequential>(C)) {
    StringRef r = CDS->getRawDataValues();
    memcpy(out.data() + off, r.data(), r.size());
    return;
  }
  if (auto* CA = dyn_cast<ConstantAggregate>(C)) {
    if (auto* ST = dyn_cast<StructType>(T)) {
      const StructLayout* L = DL->getStructLayout(ST);
      for (unsigned i = 0; i < CA->getNumOperands(); i++)
        fillConst(cast<Constant>(CA->getOperand(i)), out, off + L->getElementOffset(i));
    } else {
      Type* et = isa<ArrayType>(T) ? cast<ArrayType>(T)->getElementType() : cast<VectorType>(T)->getElementType();
      uint64_t es = DL->getTypeAllocSize(et);
      for (unsigned i = 0; i < CA->getNumOperands(); i++)
        fillConst(cast<Constant>(CA->getOperand(i)), out, off + i * es);
    }
    return;
  }
  bool u;
  E e = constExpr(C, &u);
  unsigned n = (e->width + 7) / 8;
  for (unsigned i = 0; i < n && off + i < out.size(); i++) out[off + i] = (uint8_t)(e->val >> (8 * i));
}
static E constExpr(const Constant* C, bool* undef) {
  *undef = false;
  Type* T = C->getType();
  unsigned w = typeBits(T);
  if (auto* CI = dyn_cast<ConstantInt>(C)) {
    const APInt& v = CI->getValue();
    u128 x = v.getRawData()[0];
    if (v.getNumWords() > 1) x |= (u128)v.getRawData()[1] << 64;
    return mkConst(x, w);
  }
  if (auto* CF = dyn_cast<ConstantFP>(C)) return mkConst(CF->getValueAPF().bitcastToAPInt().getRawData()[0], w);
  if (isa<ConstantPointerNull>(C)) return mkConst(0, 64);
  if (isa<UndefValue>(C)) { *undef = true; return mkConst(0, w ? w : 1); }
  if (auto* GV = dyn_cast<GlobalValue>(C)) {
    if (auto* GA = dyn_cast<GlobalAlias>(GV)) return constExpr(GA->getAliasee(), undef);
    auto it = gaddr.find(GV);
    if (it == gaddr.end()) die("no address for global " + GV->getName().str());
    return mkConst(it->second, 64);
  }
  if (auto* CE = dyn_cast<ConstantExpr>(C)) {
    bool u;
    switch (CE->getOpcode()) {
      case Instruction::GetElementPtr: {
        APInt off(64, 0);
        if (!cast<GEPOperator>(CE)->accumulateConstantOffset(*DL, off)) die("constant gep");
        return mkAdd(constExpr(CE->getOperand(0), &u), mkConst(off.getZExtValue(), 64));
      }
      case Instruction::BitCast:
      case Instruction::PtrToInt:
      case Instruction::IntToPtr:
      case Instruction::AddrSpaceCast:
      case Instruction::Trunc:
        return mkZExtOrTrunc(constExpr(CE->getOperand(0), &u), w);
      case Instruction::Sub: return mkSub(constExpr(CE->getOperand(0), &u), constExpr(CE->getOperand(1), &u));
      case Instruction::Add: return mkAdd(constExpr(CE->getOperand(0), &u), constExpr(CE->getOperand(1), &u));
      case Instruction::ICmp: {
        E a = constExpr(CE->getOperand(0), &u), b = constExpr(CE->getOperand(1), &u);
        if (CE->getPredicate() == CmpInst::ICMP_EQ) return mkEq(a, b);
        if (CE->getPredicate() == CmpInst::ICMP_NE) return mkNe(a, b);
        die("constant icmp");
      }
      default: die(std::string("constant expr ") + CE->getOpcodeName());
    }
  }
  if (T->isAggregateType() || T->isVectorTy()) {
    if (w > 128) die("aggregate constant too wide");
    std::vector<uint8_t> buf(w / 8, 0);
    fillConst(C, buf, 0);
    u128 v = 0;
    for (size_t i = 0; i < buf.size(); i++) v |= (u128)buf[i] << (8 * i);
    if (w == 0) w = 8;
    return mkConst(v, w);
  }
  std::string str;
  raw_string_ostream os(str);
  C->print(os);
  die("unsupported constant " + os.str());
  return nullptr;
}
static int constOperand(const Constant* C) {
  auto it = constIdx.find(C);
  if (it != constIdx.end()) return it->second;
  bool u = false;
  E e = constExpr(C, &u);
  int i = consts.size();
  consts.push_back(e);
  constIsUndef.push_back(u);
  constIdx[C] = ~i;
  return ~i;
}

// ------------------------------------------------------------------ builtins
enum Builtin {
  B_none = -1, B_malloc, B_calloc, B_realloc, B_free, B_memcpy, B_memmove, B_memset, B_memcmp, B_strncmp,
  B_abort, B_assert_fail, B_sym, B_assume, B_assert, B_observe, B_cover, B_failalloc, B_failpending, B_failany, B_live, B_conc, B_issym,
  B_accessible, B_bound, B_new, B_newarr, B_delete, B_cxa_alloc, B_cxa_throw, B_cxa_begin, B_cxa_end, B_cxa_free,
  B_nop0, B_terminate, B_atexit, B_errno, B_isheap, B_cond_cover, B_objsize, B_rethrow, B_cxa_pure, B_stdthrow, B_libassert,
  B_ismodel, B_kill, B_observeb, B_bytes_eq, B_initialised, B_fmtd, B_strtod
};
static const std::map<std::string, int> kBuiltins = {
    {"malloc", B_malloc}, {"calloc", B_calloc}, {"realloc", B_realloc}, {"free", B_free}, {"memcpy", B_memcpy},
    {"memmove", B_memmove}, {"memset", B_memset}, {"memcmp", B_memcmp}, {"bcmp", B_memcmp}, {"strncmp", B_strncmp},
    {"abort", B_abort}, {"__assert_fail", B_assert_fail}, {"sx_make_symbolic", B_sym}, {"sx_assume", B_assume},
    {"sx_assert_", B_assert}, {"sx_observe", B_observe}, {"sx_cover", B_cover}, {"sx_fail_alloc_at", B_failalloc}, {"sx_fail_allocs", B_failany}, {"sx_fail_alloc_pending", B_failpending},
    {"sx_live_allocs", B_live}, {"sx_concretize", B_conc}, {"sx_is_symbolic", B_issym}, {"sx_accessible", B_accessible},
    {"sx_bound_cut", B_bound}, {"_Znwm", B_new}, {"_Znam", B_newarr}, {"_ZdlPv", B_delete}, {"_ZdlPvm", B_delete},
    {"_ZdaPv", B_delete}, {"_ZdaPvm", B_delete}, {"__cxa_allocate_exception", B_cxa_alloc}, {"__cxa_throw", B_cxa_throw},
    {"__cxa_begin_catch", B_cxa_begin}, {"__cxa_end_catch", B_cxa_end}, {"__cxa_free_exception", B_cxa_free},
    {"__cxa_atexit", B_atexit}, {"_ZSt9terminatev", B_terminate}, {"__clang_call_terminate", B_terminate},
    {"__cxa_rethrow", B_rethrow}, {"__cxa_pure_virtual", B_cxa_pure}, {"sx_is_heap", B_isheap},
    {"sx_obj_size", B_objsize}, {"_ZSt20__throw_length_errorPKc", B_stdthrow}, {"_ZSt17__throw_bad_allocv", B_stdthrow},
    {"_ZSt28__throw_bad_array_new_lengthv", B_stdthrow}, {"_ZSt19__throw_logic_errorPKc", B_stdthrow},
    {"_ZSt24__throw_out_of_range_fmtPKcz", B_stdthrow}, {"_ZSt20__throw_out_of_rangePKc", B_stdthrow},
    {"_ZSt25__throw_bad_function_callv", B_stdthrow}, {"_ZNSt9exceptionD2Ev", B_nop0}, {"_ZSt21__glibcxx_assert_failPKciS0_S0_", B_libassert}, {"sx_kill", B_kill}, {"sx_observe_bytes", B_observeb},
    {"sx_bytes_eq", B_bytes_eq}, {"sx_initialised", B_initialised}, {"sx_fmt_double_", B_fmtd}, {"sx_strtod_", B_strtod}, {"sx_cond_cover", B_cond_cover}};

// ------------------------------------------------------------------ lowering
static KFunc* getK(Function* F) {
  auto it = kfuncs.find(F);
  if (it != kfuncs.end()) return it->second;
  KFunc* k = new KFunc();
  k->F = F;
  k->name = F->getName().str();
  std::unordered_map<const Value*, int> reg;
  unsigned r = 0;
  for (auto& A : F->args()) reg[&A] = r++;
  for (auto& B : *F)
    for (auto& I : B)
      if (!I.getType()->isVoidTy()) reg[&I] = r++;
  k->nregs = r;
  for (auto& B : *F) {
    int bi = k->blocks.size();
    k->bidx[&B] = bi;
    KBlock kb;
    kb.bb = &B;
    k->blocks.push_back(kb);
  }
  auto opnd = [&](Value* V) -> int {
    if (auto* C = dyn_cast<Constant>(V)) return constOperand(C);
    auto it = reg.find(V);
    if (it == reg.end()) return INT32_MIN;  // metadata, block, inline asm
    return it->second;
  };
  for (auto& B : *F) {
    KBlock& kb = k->blocks[k->bidx[&B]];
    kb.first = k->insts.size();
    bool inPhi = true;
    for (auto& I : B) {
      if (inPhi && !isa<PHINode>(I)) {
        kb.firstNonPhi = k->insts.size();
        inPhi = false;
      }
      KInst ki;
      ki.I = &I;
      ki.op = I.getOpcode();
      if (!I.getType()->isVoidTy()) {
        ki.dest = reg[&I];
        ki.width = typeBits(I.getType());
      }
      if (auto* BI = dyn_cast<BranchInst>(&I)) {
        if (BI->isConditional()) ki.ops.push_back(opnd(BI->getCondition()));
        ki.t1 = k->bidx[BI->getSuccessor(0)];
        if (BI->isConditional()) ki.t2 = k->bidx[BI->getSuccessor(1)];
      } else if (auto* PN = dyn_cast<PHINode>(&I)) {
        for (unsigned i = 0; i < PN->getNumIncomingValues(); i++) {
          ki.ops.push_back(opnd(PN->getIncomingValue(i)));
          ki.gep.push_back({(uint64_t)k->bidx[PN->getIncomingBlock(i)], 0});
        }
      } else if (auto* CB = dyn_cast<CallBase>(&I)) {
        for (auto& a : CB->args()) ki.ops.push_back(a->getType()->isMetadataTy() ? INT32_MIN : opnd(a));
        ki.callee = dyn_cast<Function>(CB->getCalledOperand()->stripPointerCasts());
        if (auto* GA = dyn_cast<GlobalAlias>(CB->getCalledOperand()->stripPointerCasts()))
          ki.callee = dyn_cast<Function>(GA->getAliasee()->stripPointerCasts());
        if (!ki.callee) ki.ops.push_back(isa<InlineAsm>(CB->getCalledOperand()) ? INT32_MIN : opnd(CB->getCalledOperand()));
        else {
          auto b = kBuiltins.find(ki.callee->getName().str());
          if (b != kBuiltins.end()) ki.builtin = b->second;
        }
        if (auto* II = dyn_cast<InvokeInst>(&I)) {
          ki.t1 = k->bidx[II->getNormalDest()];
          ki.t2 = k->bidx[II->getUnwindDest()];
        }
      } else if (auto* GI = dyn_cast<GetElementPtrInst>(&I)) {
        ki.ops.push_back(opnd(GI->getPointerOperand()));
        for (gep_type_iterator gt = gep_type_begin(GI), e = gep_type_end(GI); gt != e; ++gt) {
          Value* idx = gt.getOperand();
          if (StructType* ST = gt.getStructTypeOrNull()) {
            ki.gepConst += DL->getStructLayout(ST)->getElementOffset((unsigned)cast<ConstantInt>(idx)->getZExtValue());
          } else {
            uint64_t sc = DL->getTypeAllocSize(gt.getIndexedType());
            if (auto* CI = dyn_cast<ConstantInt>(idx)) ki.gepConst += sc * (uint64_t)CI->getSExtValue();
            else ki.gep.push_back({sc, opnd(idx)});
          }
        }
      } else {
        for (auto& o : I.operands()) ki.ops.push_back(isa<BasicBlock>(o) ? INT32_MIN : opnd(o));
      }
      k->insts.push_back(ki);
    }
  }
  kfuncs[F] = k;
  return k;
}

static inline E val(State& s, Frame& f, int op) {
  if (op >= 0) {
    E e = f.regs[op];
    if (!e) die("use of undefined register in " + f.kf->name);
    return e;
  }
  int i = ~op;
  if (constIsUndef[i]) {
    unsigned w = consts[i]->width;
    unsigned n = (w + 7) / 8;
    E b[32];
    if (n > 32) die("wide undef");
    for (unsigned k = 0; k < n; k++) b[k] = freshUninit(s);
    return mkExtract(combineBytes(b, n), 0, w);
  }
  return consts[i];
}

static void jump(State& s, Frame& f, int from, int to) {
  KBlock& kb = f.kf->blocks[to];
  unsigned nphi = kb.firstNonPhi - kb.first;
  if (nphi) {
    E tmp[64];
    std::vector<E> big;
    E* t = tmp;
    if (nphi > 64) { big.resize(nphi); t = big.data(); }
    for (unsigned i = 0; i < nphi; i++) {
      KInst& p = f.kf->insts[kb.first + i];
      int sel = -1;
      for (size_t j = 0; j < p.gep.size(); j++)
        if ((int)p.gep[j].first == from) { sel = p.ops[j]; sel = (int)j; break; }
      if (sel < 0) die("phi without incoming");
      t[i] = val(s, f, p.ops[sel]);
    }
    for (unsigned i = 0; i < nphi; i++) f.regs[f.kf->insts[kb.first + i].dest] = t[i];
  }
  f.prevBlock = from;
  f.pc = kb.firstNonPhi;
}
static int blockOf(Frame& f) { return f.kf->bidx[f.kf->insts[f.pc].I->getParent()]; }

static void popFrame(State& s) {
  Frame& f = s.stack.back();
  for (uint32_t id : f.allocas) {
    Obj* o = getObjW(s, id);
    o->alive = false;
    o->c.clear(); o->c.shrink_to_fit();
    o->s.clear(); o->un.clear();
  }
  s.stack.pop_back();
}

static void pushCall(State& s, Function* F, const std::vector<E>& args, CallBase* CB) {
  if (s.stack.size() > 1500) errorEnd(s, "stack-depth", "call stack deeper than 1500 frames", s.model);
  funcsRun.insert(F->getName().str());
  KFunc* k = getK(F);
  Frame f;
  f.kf = k;
  f.regs.assign(k->nregs, nullptr);
  unsigned i = 0;
  s.stack.push_back(std::move(f));
  Frame& nf = s.stack.back();
  for (auto& A : F->args()) {
    E v = args[i];
    if (CB && CB->isByValArgument(i)) {
      Type* T = CB->getParamByValType(i);
      uint64_t n = DL->getTypeAllocSize(T);
      // copy
      uint32_t id = newObj(s, n, OStack, true, "byval");
      nf.allocas.push_back(id);
      if (!v->isConst()) die("byval argument");
      Obj* src = getObj(s, addrObj(v->u64()));
      if (!src || !src->alive) die("byval argument");
      uint64_t off = v->u64() - objAddr(src->id);
      Obj* dst = getObjW(s, id);
      dst->c.assign(n, 0);
      for (uint64_t b = 0; b < n; b++) {
        if (!src->un.empty() && src->un[off + b]) { dst->un[b] = 1; continue; }
        writeByte(dst, b, (!src->s.empty() && src->s[off + b]) ? src->s[off + b] : mkConst(src->c[off + b], 8));
      }
      v = mkConst(objAddr(id), 64);
    }
    if (v->width != typeBits(A.getType())) v = mkZExtOrTrunc(v, typeBits(A.getType()));
    s.stack.back().regs[i] = v;
    i++;
  }
  if (F->isVarArg()) {
    uint64_t n = (args.size() - i) * 8;
    uint32_t id = newObj(s, n ? n : 8, OVararg, true, "varargs");
    s.stack.back().allocas.push_back(id);
    Obj* o = getObjW(s, id);
    for (size_t k2 = i; k2 < args.size(); k2++) {
      E v = mkZExtOrTrunc(args[k2], 64);
      for (int b = 0; b < 8; b++) writeByte(o, (k2 - i) * 8 + b, byteOf(v, b));
    }
    s.stack.back().varargs = objAddr(id);
  }
  s.stack.back().pc = k->blocks[0].firstNonPhi;
}

static void finishCall(State& s, E ret) {
  // the frame on top is the caller, positioned at the call
  Frame& f = s.stack.back();
  KInst& ki = f.kf->insts[f.pc];
  if (ki.dest >= 0) {
    if (!ret) ret = mkConst(0, ki.width);
    f.regs[ki.dest] = ret;
  }
  if (ki.op == Instruction::Invoke) jump(s, f, blockOf(f), ki.t1);
  else f.pc++;
}

// does a handler for typeinfo `base` catch an exception of typeinfo `derived`?  (single, public inheritance)
static bool catches(State& s, uint64_t base, uint64_t derived) {
  if (base == 0 || base == derived) return true;
  Obj* b = getObj(s, addrObj(base));
  if (!b) return false;
  if (derived == 1) return b->name.rfind("_ZTISt", 0) == 0;  // thrown by the library
  for (int depth = 0; depth < 16; depth++) {
    Obj* d = getObj(s, addrObj(derived));
    GlobalVariable* G = d ? M->getGlobalVariable(d->name, true) : nullptr;
    if (!G || !G->hasInitializer()) return false;
    auto* CS = dyn_cast<ConstantStruct>(G->getInitializer());
    if (!CS || CS->getNumOperands() != 3) return false;
    bool u;
    derived = constExpr(CS->getOperand(2), &u)->u64();
    if (derived == base) return true;
  }
  return false;
}
// throw: unwind to the nearest matching landing pad
static void unwind(State& s) {
  // frame on top is at the call that throws
  while (true) {
    Frame& f = s.stack.back();
    KInst& ki = f.kf->insts[f.pc];
    if (ki.op == Instruction::Invoke) {
      BasicBlock* ub = cast<InvokeInst>(ki.I)->getUnwindDest();
      LandingPadInst* LP = ub->getLandingPadInst();
      int32_t sel = 0;
      bool take = LP->isCleanup();
      for (unsigned i = 0; i < LP->getNumClauses(); i++) {
        if (!LP->isCatch(i)) { take = true; continue; }
        Constant* c = LP->getClause(i);
        bool u;
        uint64_t t = constExpr(c, &u)->u64();
        if (catches(s, t, s.excType)) {
          sel = t == 0 ? 1 : (int32_t)(addrObj(t));
          take = true;
          break;
        }
      }
      if (take) {
        s.excSel = sel;
        jump(s, f, blockOf(f), ki.t2);
        return;
      }
    }
    if (s.stack.size() == 1) errorEnd(s, "uncaught-exception", "an exception leaves the program", s.model);
    popFrame(s);
  }
}

static void freeObj(State& s, Obj* o) {
  Obj* w = getObjW(s, o->id);
  w->alive = false;
  w->c.clear(); w->c.shrink_to_fit();
  w->s.clear(); w->un.clear();
  s.liveHeap--;
}

static E doAlloc(State& s, uint64_t n, bool uninit, uint8_t family) {
  if (s.failAlloc >= 0 && family == 1) {
    if (s.failAlloc == 0) {
      s.failAlloc = -1;
      return mkConst(0, 64);
    }
    s.failAlloc--;
  }
  if (s.lazyLeft && family == 1) {
    if (!s.lazyChoice) {  // kept while the instruction is executed again for the other outcome
      while (inputSyms.size() < s.inputCursor + 1) inputSyms.push_back(mkSym(false));
      s.lazyChoice = mkAnd(inputSyms[s.inputCursor], mkConst(1, 8));
      s.inputs.push_back(InputRec{"fail", s.inputCursor, 1});
      s.inputCursor++;
    }
    uint64_t v = concretize(s, s.lazyChoice);
    s.lazyChoice = nullptr;
    if (v) {
      s.lazyLeft--;
      return mkConst(0, 64);
    }
  }
  if (n > optMaxAlloc) return mkConst(0, 64);
  uint32_t id = newObj(s, n, OHeap, uninit, "alloc@" + locOf(s.stack.back().kf->insts[s.stack.back().pc].I));
  getObjW(s, id)->allocFamily = family;
  s.liveHeap++;
  return mkConst(objAddr(id), 64);
}

static void checkRange(State& s, E addr, uint64_t n, bool write, Obj** o, uint64_t* off) {
  E offE;
  Obj* ob = resolve(s, addr, n, write, &offE);
  uint32_t id = ob->id;
  uint64_t k = concretize(s, offE);
  *o = getObj(s, id);
  *off = k;
}

static void doMemcpy(State& s, E dst, E src, E len) {
  uint64_t n = concretize(s, len);
  if (n == 0) return;
  Obj *so, *dob;
  uint64_t soff, doff;
  checkRange(s, src, n, false, &so, &soff);
  uint32_t sid = so->id;
  checkRange(s, dst, n, true, &dob, &doff);
  uint32_t did = dob->id;
  so = getObj(s, sid);
  std::vector<uint8_t> c(so->c.begin() + soff, so->c.begin() + soff + n);
  std::vector<E> sy;
  std::vector<uint8_t> un;
  if (!so->s.empty()) sy.assign(so->s.begin() + soff, so->s.begin() + soff + n);
  if (!so->un.empty()) un.assign(so->un.begin() + soff, so->un.begin() + soff + n);
  // materialise uninitialised source bytes so that both copies agree
  bool anyUn = false;
  for (uint8_t x : un) anyUn |= x;
  Obj* w = getObjW(s, did);
  memcpy(w->c.data() + doff, c.data(), n);
  bool anyS = false;
  for (E x : sy) anyS |= x != nullptr;
  if (anyS && w->s.empty()) w->s.assign(w->size, nullptr);
  if (!w->s.empty())
    for (uint64_t i = 0; i < n; i++) w->s[doff + i] = sy.empty() ? nullptr : sy[i];
  if (anyUn && w->un.empty()) w->un.assign(w->size, 0);
  if (!w->un.empty())
    for (uint64_t i = 0; i < n; i++) w->un[doff + i] = un.empty() ? 0 : un[i];
}

static std::string readCStr(State& s, E p) {
  std::string r;
  uint64_t a = p->u64();
  Obj* o = getObj(s, addrObj(a));
  if (!o || !o->alive) return r;
  uint64_t off = a - objAddr(o->id);
  while (off < o->size && o->c[off]) r += (char)o->c[off++];
  return r;
}

// memcmp/strncmp with a merged (non-forking) symbolic result
static bool doCompare(State& s, E a, E b, uint64_t n, bool str, E* ret) {
  struct Side { E addr; };
  std::vector<E> xs, ys;
  E prefixEq = mkTrue();
  for (uint64_t i = 0; i < n; i++) {
    // if the prefix cannot be equal here, stop
    if (prefixEq->isConst() && !prefixEq->val) break;
    E pa = mkAdd(a, mkConst(i, 64)), pb = mkAdd(b, mkConst(i, 64));
    auto inside = [&](E p) {
      if (!p->isConst()) return true;
      uint32_t id = addrObj(p->u64());
      Obj* o = id ? getObj(s, id) : nullptr;
      return o && o->alive && p->u64() - objAddr(id) < o->size;
    };
    if (str && (!inside(pa) || !inside(pb))) {
      // only an error if this byte is reached
      if (!decide(s, prefixEq)) break;
    }
    E x = loadMem(s, pa, 1), y = loadMem(s, pb, 1);
    xs.push_back(x);
    ys.push_back(y);
    E eq = mkEq(x, y);
    prefixEq = mkAnd(prefixEq, eq);
    if (str) prefixEq = mkAnd(prefixEq, mkNot(mkEq(x, mkConst(0, 8))));
  }
  E r = mkConst(0, 32);
  for (int i = (int)xs.size() - 1; i >= 0; i--) {
    E x = xs[i], y = ys[i];
    E diff = mkSub(mkZExt(x, 32), mkZExt(y, 32));
    if (str) r = mkIte(mkEq(x, mkConst(0, 8)), mkConst(0, 32), r);
    r = mkIte(mkEq(x, y), r, diff);
  }
  *ret = r;
  return true;
}

static void runBuiltin(State& s, Frame& f, KInst& ki, int b, const std::vector<E>& a) {
  E ret = nullptr;
  switch (b) {
    case B_malloc: ret = doAlloc(s, concretize(s, a[0]), true, 1); break;
    case B_new: ret = doAlloc(s, concretize(s, a[0]), true, 2); break;
    case B_newarr: ret = doAlloc(s, concretize(s, a[0]), true, 3); break;
    case B_calloc: ret = doAlloc(s, concretize(s, a[0]) * concretize(s, a[1]), false, 1); break;
    case B_realloc: {
      uint64_t n = concretize(s, a[1]);
      uint64_t p = concretize(s, a[0]);
      if (p == 0) { ret = doAlloc(s, n, true, 1); break; }
      Obj* o = getObj(s, addrObj(p));
      if (!o || o->kind != OHeap || p != objAddr(o->id)) errorEnd(s, "bad-free", "realloc of a non-heap pointer", s.model);
      if (!o->alive) errorEnd(s, "use-after-free", "realloc of freed memory", s.model);
      if (n == 0) { freeObj(s, o); ret = mkConst(0, 64); break; }
      uint64_t k = std::min(n, o->size);
      uint32_t oid = o->id;
      ret = doAlloc(s, n, true, 1);
      if (ret->u64() == 0) break;
      if (k) doMemcpy(s, ret, mkConst(objAddr(oid), 64), mkConst(k, 64));
      freeObj(s, getObj(s, oid));
      break;
    }
    case B_free:
    case B_delete: {
      uint64_t p = concretize(s, a[0]);
      if (p == 0) break;
      Obj* o = addrObj(p) ? getObj(s, addrObj(p)) : nullptr;
      if (!o || o->kind != OHeap || p != objAddr(o->id)) errorEnd(s, "bad-free", "free of a non-heap pointer", s.model);
      if (!o->alive) errorEnd(s, "double-free", "memory freed twice", s.model);
      freeObj(s, o);
      break;
    }
    case B_memcpy:
    case B_memmove: doMemcpy(s, a[0], a[1], a[2]); ret = a[0]; break;
    case B_memset: {
      uint64_t n = concretize(s, a[2]);
      if (n) {
        Obj* o; uint64_t off;
        checkRange(s, a[0], n, true, &o, &off);
        Obj* w = getObjW(s, o->id);
        E v = mkExtract(a[1], 0, 8);
        for (uint64_t i = 0; i < n; i++) writeByte(w, off + i, v);
      }
      ret = a[0];
      break;
    }
    case B_memcmp: {
      uint64_t n = concretize(s, a[2]);
      doCompare(s, a[0], a[1], n, false, &ret);
      break;
    }
    case B_strncmp: {
      uint64_t n = concretize(s, a[2]);
      doCompare(s, a[0], a[1], n, true, &ret);
      break;
    }
    case B_bytes_eq: {
      uint64_t n = concretize(s, a[2]);
      E r = mkTrue();
      for (uint64_t i = 0; i < n; i++)
        r = mkAnd(r, mkEq(loadMem(s, mkAdd(a[0], mkConst(i, 64)), 1), loadMem(s, mkAdd(a[1], mkConst(i, 64)), 1)));
      ret = mkZExt(r, 32);
      break;
    }
    case B_initialised: {
      uint64_t n = concretize(s, a[1]);
      bool ok = true;
      for (uint64_t i = 0; i < n; i++) {
        E e = loadMem(s, mkAdd(a[0], mkConst(i, 64)), 1);
        if (e->uninit) ok = false;
      }
      ret = mkConst(ok, 32);
      break;
    }
    case B_abort: errorEnd(s, "abort", "abort() called", s.model);
    case B_terminate: errorEnd(s, "terminate", "std::terminate", s.model);
    case B_cxa_pure: errorEnd(s, "abort", "pure virtual call", s.model);
    case B_assert_fail: errorEnd(s, "assert-in-code", readCStr(s, a[0]), s.model);
    case B_sym: {
      uint64_t p = concretize(s, a[0]), n = concretize(s, a[1]);
      InputRec in{readCStr(s, a[2]), s.inputCursor, (uint32_t)n};
      while (inputSyms.size() < s.inputCursor + n) inputSyms.push_back(mkSym(false));
      if (n) {
        Obj* o; uint64_t off;
        checkRange(s, mkConst(p, 64), n, true, &o, &off);
        Obj* w = getObjW(s, o->id);
        for (uint64_t i = 0; i < n; i++) writeByte(w, off + i, inputSyms[s.inputCursor + i]);
      }
      s.inputCursor += n;
      s.inputs.push_back(in);
      break;
    }
    case B_assume: {
      E c = mkNot(mkEq(a[0], mkConst(0, a[0]->width)));
      if (!assumeC(s, c)) {
        st.assumesPruned++;
        throw PathEnd();
      }
      break;
    }
    case B_assert: {
      st.assertChecks++;
      E c = mkNot(mkEq(a[0], mkConst(0, a[0]->width)));
      std::string msg = readCStr(s, a[1]);
      if (c->isConst()) {
        if (!c->val) errorEnd(s, "assert", msg, s.model);
      } else {
        if (!s.pcset.count(c)) {
          if (!evalExpr(c, s.model)) {
            report(s, "assert", msg, s.model);
            if (!assumeC(s, c)) { st.errPaths++; throw PathEnd(); }
          } else {
            Model m;
            Res r = solve(s, mkNot(c), m);
            if (r == Sat) report(s, "assert", msg, m);
            else if (r == Unknown) { st.cut++; cutReasons["solver-unknown"]++; }
            addPC(s, c);
          }
        }
      }
      break;
    }
    case B_observe: s.observes.push_back(mkZExtOrTrunc(a[0], 64)); break;
    case B_observeb: {
      uint64_t n = concretize(s, a[1]);
      for (uint64_t i = 0; i < n; i++) s.observes.push_back(mkZExt(loadMem(s, mkAdd(a[0], mkConst(i, 64)), 1), 64));
      break;
    }
    case B_cover: s.coversSeen.push_back(readCStr(s, a[0])); break;
    case B_cond_cover: {
      E c = mkNot(mkEq(a[0], mkConst(0, a[0]->width)));
      Model m;
      if (c->isConst() ? (bool)c->val : (evalExpr(c, s.model) || solve(s, c, m) == Sat)) s.coversSeen.push_back(readCStr(s, a[1]));
      break;
    }
    case B_failalloc:
      s.failAlloc = (int64_t)sextW(concretize(s, a[0]), a[0]->width);
      s.lazyFail = s.lazyLeft = 0;
      break;
    case B_failany: s.lazyFail = s.lazyLeft = (int)concretize(s, a[0]); break;
    case B_failpending: ret = mkConst(s.failAlloc >= 0 || (s.lazyFail && s.lazyLeft == s.lazyFail), 32); break;
    case B_live: ret = mkConst(s.liveHeap, 32); break;
    case B_conc: ret = mkConst(concretize(s, a[0]), 64); break;
    case B_issym: ret = mkConst(!a[0]->isConst(), 32); break;
    case B_isheap: {
      uint64_t p = concretize(s, a[0]);
      Obj* o = addrObj(p) ? getObj(s, addrObj(p)) : nullptr;
      ret = mkConst(o && o->alive && o->kind == OHeap && p == objAddr(o->id), 32);
      break;
    }
    case B_objsize: {
      uint64_t p = concretize(s, a[0]);
      Obj* o = addrObj(p) ? getObj(s, addrObj(p)) : nullptr;
      ret = mkConst(o && o->alive ? o->size - (p - objAddr(o->id)) : 0, 64);
      break;
    }
    case B_accessible: {
      uint64_t p = concretize(s, a[0]), n = concretize(s, a[1]);
      Obj* o = addrObj(p) ? getObj(s, addrObj(p)) : nullptr;
      bool ok = o && o->alive && p - objAddr(o->id) <= o->size && n <= o->size - (p - objAddr(o->id));
      ret = mkConst(ok, 32);
      break;
    }
    case B_bound: {
      st.boundCut++;
      throw PathEnd();
    }
    case B_kill: throw PathEnd();
    case B_cxa_alloc: ret = doAlloc(s, concretize(s, a[0]), true, 4); break;
    case B_cxa_throw:
      s.excPtr = concretize(s, a[0]);
      s.excType = concretize(s, a[1]);
      s.excDtor = concretize(s, a[2]);
      unwind(s);
      return;
    case B_rethrow:
      if (s.caught.empty()) errorEnd(s, "uncaught-exception", "rethrow without an exception", s.model);
      s.excPtr = s.caught.back().ptr;
      s.excType = s.caught.back().type;
      s.excDtor = s.caught.back().dtor;
      s.caught.back().again = true;
      unwind(s);
      return;
    case B_nop0: break;
    case B_libassert: errorEnd(s, "library-assertion", "C++ library precondition violated", s.model);
    case B_stdthrow:
      s.excPtr = s.excDtor = 0;
      s.excType = 1;
      unwind(s);
      return;
    case B_cxa_begin:
      s.caught.push_back({s.excPtr, s.excType, s.excDtor, false});
      ret = a[0];
      break;
    case B_cxa_end: {
      if (s.caught.empty()) throw std::runtime_error("__cxa_end_catch without an exception");
      auto& c = s.caught.back();
      bool last = c.ptr && !c.again;  // a rethrown exception lives on
      for (size_t i = 0; i + 1 < s.caught.size(); i++)
        if (s.caught[i].ptr == c.ptr) last = false;
      if (last && c.dtor) {
        Obj* o = getObj(s, addrObj(c.dtor));
        Function* D = o && o->kind == OFunc ? M->getFunction(o->name) : nullptr;
        c.dtor = 0;
        if (D && !D->isDeclaration()) {
          pushCall(s, D, {mkConst(c.ptr, 64)}, nullptr);
          s.stack.back().again = true;
          return;
        }
      }
      if (last) {
        Obj* o = getObj(s, addrObj(c.ptr));
        if (o && o->alive) freeObj(s, o);
      }
      s.caught.pop_back();
      break;
    }
    case B_cxa_free: {
      uint64_t p = concretize(s, a[0]);
      Obj* o = getObj(s, addrObj(p));
      if (o && o->alive) freeObj(s, o);
      break;
    }
    case B_atexit: ret = mkConst(0, 32); break;
    case B_fmtd: {  // (buf, n, prec, bits, kind): concrete double formatting by the host C library
      char t[512];
      double d = bitsToDouble(concretize(s, a[3]));
      int prec = (int)concretize(s, a[2]);
      char fm[8] = {'%', '.', '*', (char)concretize(s, a[4]), 0};
      if (prec < 0) prec = 6;
      int n = snprintf(t, sizeof t, fm, prec, d);
      if (n >= (int)sizeof t) n = sizeof t - 1;
      uint64_t cap = concretize(s, a[1]);
      Obj* o; uint64_t off;
      checkRange(s, a[0], std::min<uint64_t>(cap, n + 1), true, &o, &off);
      Obj* w2 = getObjW(s, o->id);
      for (int i = 0; i <= n && (uint64_t)i < cap; i++) writeByte(w2, off + i, mkConst((uint8_t)t[i], 8));
      break;
    }
    case B_strtod: {  // concrete text only: every byte read is concretised by forking
      std::string t;
      for (int i = 0; i < 400; i++) {
        E c = loadMem(s, mkAdd(a[0], mkConst(i, 64)), 1);
        char ch = (char)concretize(s, c);
        if (!ch) break;
        t += ch;
      }
      char* e;
      double d = strtod(t.c_str(), &e);
      storeMem(s, a[1], mkConst((uint64_t)(e - t.c_str()), 64), 8);
      ret = mkConst(doubleToBits(d), 64);
      break;
    }
    default: die("builtin");
  }
  finishCall(s, ret);
}

static void runIntrinsic(State& s, Frame& f, KInst& ki, Function* F, const std::vector<E>& a) {
  E ret = nullptr;
  unsigned w = ki.width;
  switch (F->getIntrinsicID()) {
    case Intrinsic::dbg_declare: case Intrinsic::dbg_value: case Intrinsic::dbg_label: case Intrinsic::lifetime_start:
    case Intrinsic::lifetime_end: case Intrinsic::assume: case Intrinsic::stackrestore: case Intrinsic::donothing:
    case Intrinsic::experimental_noalias_scope_decl: case Intrinsic::vaend: case Intrinsic::prefetch:
      break;
    case Intrinsic::invariant_start: ret = mkConst(0, 64); break;
    case Intrinsic::invariant_end: break;
    case Intrinsic::stacksave: ret = mkConst(0, 64); break;
    case Intrinsic::expect: case Intrinsic::launder_invariant_group: case Intrinsic::strip_invariant_group: ret = a[0]; break;
    case Intrinsic::is_constant: ret = mkConst(0, 1); break;
    case Intrinsic::memcpy: case Intrinsic::memmove: case Intrinsic::memcpy_inline: doMemcpy(s, a[0], a[1], a[2]); break;
    case Intrinsic::memset: runBuiltin(s, f, ki, B_memset, {a[0], mkZExt(a[1], 32), mkZExtOrTrunc(a[2], 64)}); return;
    case Intrinsic::trap: case Intrinsic::ubsantrap: case Intrinsic::debugtrap: {
      static const char* names[] = {"add-overflow", "builtin-unreachable", "cfi", "divrem-overflow", "dynamic-type", "float-cast-overflow",
                                    "function-type", "implicit-conversion", "invalid-builtin", "invalid-objc-cast", "load-invalid-value",
                                    "missing-return", "mul-overflow", "negate-overflow", "nullability-arg", "nullability-return",
                                    "nonnull-arg", "nonnull-return", "out-of-bounds-index", "pointer-overflow", "shift-out-of-bounds",
                                    "sub-overflow", "type-mismatch", "alignment", "vla-bound"};
      std::string k = "ub";
      if (!a.empty() && a[0]->u64() < 25) k = std::string("ub-") + names[a[0]->u64()];
      errorEnd(s, k, "undefined behaviour", s.model);
    }
    case Intrinsic::vastart: {
      // va_list: {gp_offset, fp_offset, overflow_arg_area, reg_save_area}
      storeMem(s, a[0], mkConst(48, 32), 4);
      storeMem(s, mkAdd(a[0], mkConst(4, 64)), mkConst(176, 32), 4);
      storeMem(s, mkAdd(a[0], mkConst(8, 64)), mkConst(f.varargs, 64), 8);
      storeMem(s, mkAdd(a[0], mkConst(16, 64)), mkConst(0, 64), 8);
      break;
    }
    case Intrinsic::vacopy: doMemcpy(s, a[0], a[1], mkConst(24, 64)); break;
    case Intrinsic::bswap: ret = mkBswap(a[0]); break;
    case Intrinsic::fabs: ret = mkZExt(mkExtract(a[0], 0, w - 1), w); break;
    case Intrinsic::abs: ret = mkIte(mkBin(KSlt, a[0], mkConst(0, w)), mkSub(mkConst(0, w), a[0]), a[0]); break;
    case Intrinsic::umin: ret = mkIte(mkBin(KUlt, a[0], a[1]), a[0], a[1]); break;
    case Intrinsic::umax: ret = mkIte(mkBin(KUlt, a[0], a[1]), a[1], a[0]); break;
    case Intrinsic::smin: ret = mkIte(mkBin(KSlt, a[0], a[1]), a[0], a[1]); break;
    case Intrinsic::smax: ret = mkIte(mkBin(KSlt, a[0], a[1]), a[1], a[0]); break;
    case Intrinsic::fshl: case Intrinsic::fshr: {
      E sh = mkBin(KURem, a[2], mkConst(w, w));
      E cat = mkConcat(a[0], a[1]);
      if (F->getIntrinsicID() == Intrinsic::fshl) ret = mkExtract(mkBin(KShl, cat, mkZExt(sh, 2 * w)), w, w);
      else ret = mkExtract(mkBin(KLShr, cat, mkZExt(sh, 2 * w)), 0, w);
      break;
    }
    case Intrinsic::ctlz: {
      E r = mkConst(w, w);
      for (unsigned i = 0; i < w; i++) r = mkIte(mkExtract(a[0], i, 1), mkConst(w - 1 - i, w), r);
      ret = r;
      break;
    }
    case Intrinsic::cttz: {
      E r = mkConst(w, w);
      for (int i = (int)w - 1; i >= 0; i--) r = mkIte(mkExtract(a[0], i, 1), mkConst(i, w), r);
      ret = r;
      break;
    }
    case Intrinsic::ctpop: {
      E r = mkConst(0, w);
      for (unsigned i = 0; i < w; i++) r = mkAdd(r, mkZExt(mkExtract(a[0], i, 1), w));
      ret = r;
      break;
    }
    case Intrinsic::sadd_with_overflow: case Intrinsic::uadd_with_overflow: case Intrinsic::ssub_with_overflow:
    case Intrinsic::usub_with_overflow: case Intrinsic::smul_with_overflow: case Intrinsic::umul_with_overflow: {
      unsigned n = a[0]->width;
      auto id = F->getIntrinsicID();
      bool sg = id == Intrinsic::sadd_with_overflow || id == Intrinsic::ssub_with_overflow || id == Intrinsic::smul_with_overflow;
      bool mul = id == Intrinsic::smul_with_overflow || id == Intrinsic::umul_with_overflow;
      bool sub = id == Intrinsic::ssub_with_overflow || id == Intrinsic::usub_with_overflow;
      unsigned ww = mul ? 2 * n : n + 1;
      Kind op = mul ? KMul : sub ? KSub : KAdd;
      E r, ov;
      r = mkBin(op, a[0], a[1]);
      if (mul && (a[0]->isConst() || a[1]->isConst()) && ww > 64) {
        // x * c overflows iff x outside [min/c, max/c]
        E x = a[0]->isConst() ? a[1] : a[0];
        E c = a[0]->isConst() ? a[0] : a[1];
        if (x->isConst()) {
          E wide = mkBin(KMul, sg ? mkSExt(x, 128) : mkZExt(x, 128), sg ? mkSExt(c, 128) : mkZExt(c, 128));
          E back = sg ? mkSExt(r, 128) : mkZExt(r, 128);
          ov = mkNe(wide, back);
        } else if (c->val == 0) ov = mkFalse();
        else if (!sg) ov = mkBin(KUlt, mkConst(maskW(n) / c->val, n), x);
        else {
          i128 cv = sextW(c->val, n), mx = (i128)(maskW(n) >> 1), mn = -mx - 1;
          if (cv == -1) ov = mkEq(x, mkConst((u128)mn, n));
          else {
            i128 lo = cv > 0 ? mn / cv : mx / cv, hi = cv > 0 ? mx / cv : mn / cv;
            ov = mkOr(mkBin(KSlt, x, mkConst((u128)lo, n)), mkBin(KSlt, mkConst((u128)hi, n), x));
          }
        }
      } else {
        if (ww > 128) die("wide overflow op");
        E x = sg ? mkSExt(a[0], ww) : mkZExt(a[0], ww), y = sg ? mkSExt(a[1], ww) : mkZExt(a[1], ww);
        E wide = mkBin(op, x, y);
        ov = mkNe(wide, sg ? mkSExt(r, ww) : mkZExt(r, ww));
      }
      // struct {iN, i1}
      StructType* ST = cast<StructType>(ki.I->getType());
      unsigned o1 = DL->getStructLayout(ST)->getElementOffset(1) * 8;
      E lo = mkZExt(r, o1);
      ret = mkConcat(mkZExt(ov, w - o1), lo);
      break;
    }
    case Intrinsic::usub_sat: ret = mkIte(mkBin(KUlt, a[0], a[1]), mkConst(0, w), mkSub(a[0], a[1])); break;
    case Intrinsic::uadd_sat: { E r = mkAdd(a[0], a[1]); ret = mkIte(mkBin(KUlt, r, a[0]), mkConst(maskW(w), w), r); break; }
    case Intrinsic::sadd_sat: case Intrinsic::ssub_sat: {
      bool sub = F->getIntrinsicID() == Intrinsic::ssub_sat;
      if (w > 64) die("wide saturating op");
      E wide = mkBin(sub ? KSub : KAdd, mkSExt(a[0], w + 1), mkSExt(a[1], w + 1));
      E r = mkExtract(wide, 0, w), mx = mkConst(maskW(w) >> 1, w), mn = mkConst((u128)1 << (w - 1), w);
      ret = mkIte(mkEq(wide, mkSExt(r, w + 1)), r, mkIte(mkEq(mkExtract(wide, w, 1), mkConst(1, 1)), mn, mx));
      break;
    }
    case Intrinsic::bitreverse: {
      E r = mkExtract(a[0], 0, 1);
      for (unsigned i = 1; i < w; i++) r = mkConcat(r, mkExtract(a[0], i, 1));
      ret = r;
      break;
    }
    case Intrinsic::fmuladd: ret = mkFP(KFAdd, mkFP(KFMul, a[0], a[1], w), a[2], w); break;
    case Intrinsic::minnum: ret = mkIte(fpIsNan(a[1]), a[0], mkIte(fpIsNan(a[0]), a[1], mkIte(fpLt(a[0], a[1]), a[0], a[1]))); break;
    case Intrinsic::maxnum: ret = mkIte(fpIsNan(a[1]), a[0], mkIte(fpIsNan(a[0]), a[1], mkIte(fpLt(a[0], a[1]), a[1], a[0]))); break;
    case Intrinsic::objectsize: ret = mkConst(a[1]->val ? 0 : maskW(w), w); break;
    case Intrinsic::copysign: ret = mkConcat(mkExtract(a[1], w - 1, 1), mkExtract(a[0], 0, w - 1)); break;
    case Intrinsic::floor: case Intrinsic::ceil: case Intrinsic::trunc: case Intrinsic::rint: case Intrinsic::nearbyint:
    case Intrinsic::round: case Intrinsic::roundeven: case Intrinsic::sqrt: {
      if (!a[0]->isConst()) die("symbolic rounding");
      double d = bitsToDouble(a[0]->u64());
      switch (F->getIntrinsicID()) {
        case Intrinsic::floor: d = floor(d); break;
        case Intrinsic::ceil: d = ceil(d); break;
        case Intrinsic::trunc: d = trunc(d); break;
        case Intrinsic::round: d = round(d); break;
        case Intrinsic::sqrt: d = sqrt(d); break;
        default: d = rint(d);
      }
      ret = mkConst(doubleToBits(d), 64);
      break;
    }
    case Intrinsic::is_fpclass: {
      unsigned test = (unsigned)a[1]->u64();
      unsigned vw = a[0]->width;
      if (test == 3) ret = fpIsNan(a[0]);
      else if (test == 0x204 || test == 516) {
        ret = mkEq(mkExtract(a[0], 0, vw - 1), mkConst(vw == 64 ? 0x7ff0000000000000ull : 0x7f800000u, vw - 1));
      } else if (test == 0x1f8 || test == 504) {
        ret = mkBin(KUlt, mkExtract(a[0], 0, vw - 1), mkConst(vw == 64 ? 0x7ff0000000000000ull : 0x7f800000u, vw - 1));
      } else die("is_fpclass " + std::to_string(test));
      break;
    }
    case Intrinsic::eh_typeid_for: {
      ret = mkConst(addrObj(a[0]->u64()), 32);
      break;
    }
    default: die("intrinsic " + F->getName().str());
  }
  finishCall(s, ret);
}

static E icmp(CmpInst::Predicate p, E a, E b) {
  switch (p) {
    case CmpInst::ICMP_EQ: return mkEq(a, b);
    case CmpInst::ICMP_NE: return mkNe(a, b);
    case CmpInst::ICMP_ULT: return mkBin(KUlt, a, b);
    case CmpInst::ICMP_ULE: return mkBin(KUle, a, b);
    case CmpInst::ICMP_UGT: return mkBin(KUlt, b, a);
    case CmpInst::ICMP_UGE: return mkBin(KUle, b, a);
    case CmpInst::ICMP_SLT: return mkBin(KSlt, a, b);
    case CmpInst::ICMP_SLE: return mkBin(KSle, a, b);
    case CmpInst::ICMP_SGT: return mkBin(KSlt, b, a);
    case CmpInst::ICMP_SGE: return mkBin(KSle, b, a);
    default: break;
  }
  E uno = mkOr(fpIsNan(a), fpIsNan(b));
  E ord = mkNot(uno);
  switch (p) {
    case CmpInst::FCMP_FALSE: return mkFalse();
    case CmpInst::FCMP_TRUE: return mkTrue();
    case CmpInst::FCMP_OEQ: return fpEq(a, b);
    case CmpInst::FCMP_OGT: return fpLt(b, a);
    case CmpInst::FCMP_OGE: return fpLe(b, a);
    case CmpInst::FCMP_OLT: return fpLt(a, b);
    case CmpInst::FCMP_OLE: return fpLe(a, b);
    case CmpInst::FCMP_ONE: return mkAnd(ord, mkNot(fpEq(a, b)));
    case CmpInst::FCMP_ORD: return ord;
    case CmpInst::FCMP_UNO: return uno;
    case CmpInst::FCMP_UEQ: return mkOr(uno, fpEq(a, b));
    case CmpInst::FCMP_UGT: return mkOr(uno, fpLt(b, a));
    case CmpInst::FCMP_UGE: return mkOr(uno, fpLe(b, a));
    case CmpInst::FCMP_ULT: return mkOr(uno, fpLt(a, b));
    case CmpInst::FCMP_ULE: return mkOr(uno, fpLe(a, b));
    case CmpInst::FCMP_UNE: return mkNot(fpEq(a, b));
    default: die("cmp");
  }
  return nullptr;
}

static uint64_t aggOffset(Type* T, ArrayRef<unsigned> idx, Type** leaf) {
  uint64_t off = 0;
  for (unsigned i : idx) {
    if (auto* ST = dyn_cast<StructType>(T)) {
      off += DL->getStructLayout(ST)->getElementOffset(i);
      T = ST->getElementType(i);
    } else {
      Type* et = cast<ArrayType>(T)->getElementType();
      off += i * DL->getTypeAllocSize(et);
      T = et;
    }
  }
  *leaf = T;
  return off;
}

// Execute one instruction.  Throws PathEnd when the path is finished.
static void step(State& s) {
  Frame& f = s.stack.back();
  KInst& ki = f.kf->insts[f.pc];
  Instruction* I = ki.I;
  auto V = [&](int i) { return val(s, f, ki.ops[i]); };
  auto setr = [&](E e) {
    f.regs[ki.dest] = e;
    f.pc++;
  };
  switch (ki.op) {
    case Instruction::Ret: {
      E r = ki.ops.empty() ? nullptr : V(0);
      if (s.stack.size() == 1) {
        pathIsComplete = true;
        throw PathEnd();
      }
      bool again = f.again;
      popFrame(s);
      if (!again) finishCall(s, r);
      return;
    }
    case Instruction::Br: {
      if (ki.t2 < 0) {
        jump(s, f, blockOf(f), ki.t1);
        return;
      }
      bool c = decide(s, V(0));
      jump(s, f, blockOf(f), c ? ki.t1 : ki.t2);
      return;
    }
    case Instruction::Switch: {
      auto* SI = cast<SwitchInst>(I);
      E v = V(0);
      int from = blockOf(f);
      BasicBlock* dest = SI->getDefaultDest();
      if (v->isConst()) {
        for (auto& c : SI->cases())
          if (mkConst(c.getCaseValue()->getZExtValue(), v->width) == v) { dest = c.getCaseSuccessor(); break; }
      } else {
        // group cases by successor to keep one fork per target
        std::vector<std::pair<BasicBlock*, E>> groups;
        for (auto& c : SI->cases()) {
          E q = mkEq(v, mkConst(c.getCaseValue()->getZExtValue(), v->width));
          bool found = false;
          for (auto& g : groups)
            if (g.first == c.getCaseSuccessor()) { g.second = mkOr(g.second, q); found = true; }
          if (!found) groups.push_back({c.getCaseSuccessor(), q});
        }
        for (auto& g : groups) {
          if (g.first == dest) continue;
          if (decide(s, g.second)) { dest = g.first; break; }
        }
      }
      jump(s, f, from, f.kf->bidx[dest]);
      return;
    }
    case Instruction::Unreachable:
      errorEnd(s, "unreachable", "reached unreachable code", s.model);
    case Instruction::Alloca: {
      auto* AI = cast<AllocaInst>(I);
      uint64_t n = concretize(s, V(0)) * DL->getTypeAllocSize(AI->getAllocatedType());
      uint32_t id = newObj(s, n, OStack, true, AI->getName().str());
      f.allocas.push_back(id);
      setr(mkConst(objAddr(id), 64));
      return;
    }
    case Instruction::Load: {
      unsigned bytes = (ki.width + 7) / 8;
      E v = loadMem(s, V(0), bytes);
      setr(v->width == ki.width ? v : mkExtract(v, 0, ki.width));
      return;
    }
    case Instruction::Store: {
      E v = V(0);
      unsigned bytes = (v->width + 7) / 8;
      storeMem(s, V(1), v, bytes);
      f.pc++;
      return;
    }
    case Instruction::GetElementPtr: {
      E p = mkAdd(V(0), mkConst(ki.gepConst, 64));
      for (auto& g : ki.gep) {
        E i = val(s, f, g.second);
        i = i->width < 64 ? mkSExt(i, 64) : mkExtract(i, 0, 64);
        E sc;
        if ((g.first & (g.first - 1)) == 0 && g.first) {
          unsigned sh = 0;
          while ((1ull << sh) != g.first) sh++;
          sc = mkBin(KShl, i, mkConst(sh, 64));
        } else sc = mkBin(KMul, i, mkConst(g.first, 64));
        p = mkAdd(p, sc);
      }
      setr(p);
      return;
    }
    case Instruction::Call:
    case Instruction::Invoke: {
      auto* CB = cast<CallBase>(I);
      Function* F = ki.callee;
      if (F && F->isIntrinsic()) {
        auto id = F->getIntrinsicID();
        if (id == Intrinsic::dbg_declare || id == Intrinsic::dbg_value || id == Intrinsic::dbg_label ||
            id == Intrinsic::experimental_noalias_scope_decl) {
          f.pc++;
          return;
        }
      }
      std::vector<E> args;
      unsigned n = CB->arg_size();
      for (unsigned i = 0; i < n; i++) args.push_back(ki.ops[i] == INT32_MIN ? mkConst(0, 1) : V(i));
      if (!F) {
        if (isa<InlineAsm>(CB->getCalledOperand())) { finishCall(s, nullptr); return; }
        E fp = V(n);
        uint64_t a = concretize(s, fp);
        uint32_t id = addrObj(a);
        auto it = funcById.find(id);
        if (it == funcById.end() || a != objAddr(id)) errorEnd(s, "bad-call", "call through an invalid function pointer", s.model);
        F = it->second;
        auto b = kBuiltins.find(F->getName().str());
        if (b != kBuiltins.end()) { runBuiltin(s, f, ki, b->second, args); return; }
      }
      if (ki.builtin >= 0) { runBuiltin(s, f, ki, ki.builtin, args); return; }
      if (F->isIntrinsic()) { runIntrinsic(s, f, ki, F, args); return; }
      if (F->isDeclaration()) die("call to external function without a model: " + F->getName().str() + " at " + stackStr(s));
      pushCall(s, F, args, CB);
      return;
    }
    case Instruction::LandingPad: {
      // {ptr, i32}
      E r = mkConcat(mkZExt(mkConst((uint32_t)s.excSel, 32), ki.width - 64), mkConst(s.excPtr, 64));
      setr(r);
      return;
    }
    case Instruction::Resume: {
      if (s.stack.size() == 1) errorEnd(s, "uncaught-exception", "an exception leaves the program", s.model);
      popFrame(s);
      unwind(s);
      return;
    }
    case Instruction::Select: {
      E c = V(0), a = V(1), b = V(2);
      if (c->width != 1) die("vector select");
      setr(mkIte(c, a, b));
      return;
    }
    case Instruction::ICmp:
    case Instruction::FCmp: {
      E a = V(0), b = V(1);
      if (ki.width != 1) die("vector cmp");
      setr(icmp(cast<CmpInst>(I)->getPredicate(), a, b));
      return;
    }
    case Instruction::ZExt: setr(mkZExt(V(0), ki.width)); return;
    case Instruction::SExt: setr(mkSExt(V(0), ki.width)); return;
    case Instruction::Trunc: setr(mkExtract(V(0), 0, ki.width)); return;
    case Instruction::PtrToInt:
    case Instruction::IntToPtr:
    case Instruction::BitCast:
    case Instruction::AddrSpaceCast:
    case Instruction::Freeze:
      setr(mkZExtOrTrunc(V(0), ki.width));
      return;
    case Instruction::FNeg: {
      E v = V(0);
      setr(mkConcat(mkNot(mkExtract(v, v->width - 1, 1)), mkExtract(v, 0, v->width - 1)));
      return;
    }
    case Instruction::FAdd: setr(mkFP(KFAdd, V(0), V(1), ki.width)); return;
    case Instruction::FSub: setr(mkFP(KFSub, V(0), V(1), ki.width)); return;
    case Instruction::FMul: setr(mkFP(KFMul, V(0), V(1), ki.width)); return;
    case Instruction::FDiv: setr(mkFP(KFDiv, V(0), V(1), ki.width)); return;
    case Instruction::UIToFP: setr(mkFP(KUIToFP, V(0), nullptr, ki.width)); return;
    case Instruction::SIToFP: setr(mkFP(KSIToFP, V(0), nullptr, ki.width)); return;
    case Instruction::FPToUI: setr(mkFP(KFPToUI, V(0), nullptr, ki.width)); return;
    case Instruction::FPToSI: setr(mkFP(KFPToSI, V(0), nullptr, ki.width)); return;
    case Instruction::FPExt: setr(mkFP(KFPExt, V(0), nullptr, ki.width)); return;
    case Instruction::FPTrunc: setr(mkFP(KFPTrunc, V(0), nullptr, ki.width)); return;
    case Instruction::Add: setr(mkBin(KAdd, V(0), V(1))); return;
    case Instruction::Sub: setr(mkBin(KSub, V(0), V(1))); return;
    case Instruction::Mul: setr(mkBin(KMul, V(0), V(1))); return;
    case Instruction::And: setr(mkBin(KAnd, V(0), V(1))); return;
    case Instruction::Or: setr(mkBin(KOr, V(0), V(1))); return;
    case Instruction::Xor: setr(mkBin(KXor, V(0), V(1))); return;
    case Instruction::Shl: setr(mkBin(KShl, V(0), V(1))); return;
    case Instruction::LShr: setr(mkBin(KLShr, V(0), V(1))); return;
    case Instruction::AShr: setr(mkBin(KAShr, V(0), V(1))); return;
    case Instruction::UDiv:
    case Instruction::SDiv:
    case Instruction::URem:
    case Instruction::SRem: {
      E a = V(0), b = V(1);
      if (!decide(s, mkNot(mkEq(b, mkConst(0, b->width))))) errorEnd(s, "ub-div-zero", "division by zero", s.model);
      Kind k = ki.op == Instruction::UDiv ? KUDiv : ki.op == Instruction::SDiv ? KSDiv : ki.op == Instruction::URem ? KURem : KSRem;
      setr(mkBin(k, a, b));
      return;
    }
    case Instruction::ExtractValue: {
      auto* EV = cast<ExtractValueInst>(I);
      Type* leaf;
      uint64_t off = aggOffset(EV->getAggregateOperand()->getType(), EV->getIndices(), &leaf);
      setr(mkExtract(V(0), off * 8, typeBits(leaf)));
      return;
    }
    case Instruction::InsertValue: {
      auto* IV = cast<InsertValueInst>(I);
      Type* leaf;
      uint64_t off = aggOffset(IV->getAggregateOperand()->getType(), IV->getIndices(), &leaf) * 8;
      unsigned lw = typeBits(leaf);
      E agg = V(0), v = V(1);
      unsigned W = ki.width;
      E r = v;
      if (off) r = mkConcat(r, mkExtract(agg, 0, off));
      if (off + lw < W) r = mkConcat(mkExtract(agg, off + lw, W - off - lw), r);
      setr(r);
      return;
    }
    case Instruction::ExtractElement: {
      uint64_t i = concretize(s, V(1));
      setr(mkExtract(V(0), i * ki.width, ki.width));
      return;
    }
    case Instruction::InsertElement: {
      E agg = V(0), v = V(1);
      uint64_t off = concretize(s, V(2)) * v->width;
      unsigned W = ki.width;
      E r = v;
      if (off) r = mkConcat(r, mkExtract(agg, 0, off));
      if (off + v->width < W) r = mkConcat(mkExtract(agg, off + v->width, W - off - v->width), r);
      setr(r);
      return;
    }
    case Instruction::Fence: f.pc++; return;
    case Instruction::AtomicRMW: {
      auto* A = cast<AtomicRMWInst>(I);
      unsigned bytes = ki.width / 8;
      E old = loadMem(s, V(0), bytes), x = V(1), nv = nullptr;
      switch (A->getOperation()) {
        case AtomicRMWInst::Add: nv = mkAdd(old, x); break;
        case AtomicRMWInst::Sub: nv = mkSub(old, x); break;
        case AtomicRMWInst::Xchg: nv = x; break;
        default: die("atomicrmw");
      }
      storeMem(s, V(0), nv, bytes);
      setr(old);
      return;
    }
    default: die(std::string("instruction ") + I->getOpcodeName() + " at " + stackStr(s));
  }
}

static uint64_t hashInputs(const std::vector<std::pair<std::string, std::vector<uint8_t>>>& in) {
  uint64_t h = 1469598103934665603ull;
  for (auto& p : in)
    for (uint8_t b : p.second) h = (h ^ b) * 1099511628211ull;
  return h;
}
static uint64_t rngState = 88172645463325252ull;
static uint64_t rnd() {
  rngState ^= rngState << 13;
  rngState ^= rngState >> 7;
  rngState ^= rngState << 17;
  return rngState;
}

static void runState(State* sp) {
  State& s = *sp;
  pathIsComplete = false;
  try {
    while (true) {
      step(s);
      st.steps++;
      if (++s.steps > optMaxSteps) {
        report(s, "step-limit", "no termination within the step bound", s.model);
        endPath(s, "step-limit");
      }
      if ((st.steps & 1023) == 0 && now() > tDeadline) {
        st.cut++;
        cutReasons["time"]++;
        break;
      }
    }
  } catch (PathEnd&) {
  }
  if (pathIsComplete) {
    st.paths++;
    for (auto& c : s.coversSeen) covers[c]++;
    // reservoir sample of completed paths, replayed natively by the driver
    samplesSeen++;
    int slot = -1;
    if ((int)samples.size() < optSamples) { slot = samples.size(); samples.emplace_back(); }
    else {
      uint64_t k = rnd() % samplesSeen;
      if ((int64_t)k < optSamples) slot = (int)k;
    }
    if (slot >= 0) {
      SampleRec r;
      r.inputs = concInputs(s, s.model);
      for (E e : s.observes) r.obs.push_back(e->uninit ? 0xDEADBEEFDEADBEEFull : (uint64_t)evalExpr(e, s.model));
      samples[slot] = r;
    }
  }
  delete sp;
}

// ------------------------------------------------------------------ output
static std::string jstr(const std::string& s) {
  std::string r = "\"";
  for (unsigned char c : s) {
    if (c == '"' || c == '\\') { r += '\\'; r += c; }
    else if (c < 32 || c > 126) { char b[8]; snprintf(b, sizeof b, "\\u%04x", c); r += b; }
    else r += c;
  }
  return r + "\"";
}
static std::string hex(const std::vector<uint8_t>& v) {
  std::string r;
  char b[4];
  for (uint8_t x : v) { snprintf(b, sizeof b, "%02x", x); r += b; }
  return r;
}
static void writeOut(const std::string& path, bool finished) {
  FILE* o = path.empty() ? stdout : fopen(path.c_str(), "w");
  fprintf(o, "{\"finished\":%s,\"remaining\":%zu,\"paths\":%llu,\"cut\":%llu,\"bound_cut\":%llu,\"queries\":%llu,\"z3_queries\":%llu,\"cache_hits\":%llu,"
             "\"domain_queries\":%llu,\"unknown\":%llu,\"steps\":%llu,\"forks\":%llu,\"assert_checks\":%llu,\"assume_pruned\":%llu,"
             "\"mem_checks\":%llu,\"z3_time\":%.4f,\"max_query\":%.4f,\"wall\":%.3f,\"error_paths\":%llu,\"exprs\":%u,",
          finished ? "true" : "false", work.size(), (unsigned long long)st.paths, (unsigned long long)st.cut, (unsigned long long)st.boundCut,
          (unsigned long long)st.queries, (unsigned long long)st.z3queries, (unsigned long long)st.cacheHits,
          (unsigned long long)st.domainQueries, (unsigned long long)st.unknown, (unsigned long long)st.steps,
          (unsigned long long)st.forks, (unsigned long long)st.assertChecks, (unsigned long long)st.assumesPruned,
          (unsigned long long)st.memChecks, st.z3time, st.maxQuery, now() - tStart, (unsigned long long)st.errPaths, numSyms());
  fprintf(o, "\"cut_reasons\":{");
  bool first = true;
  for (auto& p : cutReasons) { fprintf(o, "%s%s:%llu", first ? "" : ",", jstr(p.first).c_str(), (unsigned long long)p.second); first = false; }
  fprintf(o, "},\"covers\":{");
  first = true;
  for (auto& p : covers) { fprintf(o, "%s%s:%llu", first ? "" : ",", jstr(p.first).c_str(), (unsigned long long)p.second); first = false; }
  fprintf(o, "},\"functions\":[");
  first = true;
  for (auto& p : funcsRun) { fprintf(o, "%s%s", first ? "" : ",", jstr(p).c_str()); first = false; }
  auto inputs = [&](const std::vector<std::pair<std::string, std::vector<uint8_t>>>& in) {
    fprintf(o, "[");
    for (size_t i = 0; i < in.size(); i++) fprintf(o, "%s[%s,\"%s\"]", i ? "," : "", jstr(in[i].first).c_str(), hex(in[i].second).c_str());
    fprintf(o, "]");
  };
  fprintf(o, "],\"errors\":[");
  first = true;
  for (auto& e : errors) {
    fprintf(o, "%s{\"kind\":%s,\"loc\":%s,\"func\":%s,\"msg\":%s,\"stack\":%s,\"inputs\":", first ? "" : ",", jstr(e.kind).c_str(),
            jstr(e.loc).c_str(), jstr(e.func).c_str(), jstr(e.msg).c_str(), jstr(e.stack).c_str());
    inputs(e.inputs);
    fprintf(o, "}");
    first = false;
  }
  fprintf(o, "],\"error_counts\":{");
  first = true;
  for (auto& p : errCount) { fprintf(o, "%s%s:%d", first ? "" : ",", jstr(p.first).c_str(), p.second); first = false; }
  fprintf(o, "},\"samples\":[");
  first = true;
  for (auto& r : samples) {
    fprintf(o, "%s{\"inputs\":", first ? "" : ",");
    inputs(r.inputs);
    fprintf(o, ",\"obs\":[");
    for (size_t i = 0; i < r.obs.size(); i++) fprintf(o, "%s\"%llx\"", i ? "," : "", (unsigned long long)r.obs[i]);
    fprintf(o, "]}");
    first = false;
  }
  fprintf(o, "]}\n");
  if (o != stdout) fclose(o);
}

static void initGlobals(State& s) {
  for (auto& F : *M) {
    uint32_t id = newObj(s, 0, OFunc, false, F.getName().str());
    gaddr[&F] = objAddr(id);
    funcById[id] = &F;
  }
  for (auto& G : M->globals()) {
    Type* T = G.getValueType();
    uint64_t n = T->isSized() ? (uint64_t)DL->getTypeAllocSize(T) : 0;
    uint32_t id = newObj(s, n, OGlobal, false, G.getName().str());
    gaddr[&G] = objAddr(id);
  }
  for (auto& G : M->globals()) {
    if (!G.hasInitializer()) continue;
    Obj* o = getObjW(s, addrObj(gaddr[&G]));
    std::vector<uint8_t> buf(o->size, 0);
    fillConst(G.getInitializer(), buf, 0);
    o->c = buf;
    o->readonly = G.isConstant();
  }
}

int main(int argc, char** argv) {
  std::string file;
  for (int i = 1; i < argc; i++) {
    std::string a = argv[i];
    auto nxt = [&]() { return std::string(argv[++i]); };
    if (a == "--time") optMaxTime = atof(nxt().c_str());
    else if (a == "--steps") optMaxSteps = atoll(nxt().c_str());
    else if (a == "--out") optOut = nxt();
    else if (a == "--entry") optEntry = nxt();
    else if (a == "--jobs") optJobs = atoi(nxt().c_str());
    else if (a == "--query-ms") optQueryMs = atoi(nxt().c_str());
    else if (a == "--samples") optSamples = atoi(nxt().c_str());
    else if (a == "--conc") optConcLimit = atoll(nxt().c_str());
    else if (a == "--no-uninit") optUninit = false;
    else if (a == "--check-solver") optCheckSolver = true;
    else if (a == "--seed") rngState ^= (uint64_t)atoll(nxt().c_str()) * 0x9E3779B97F4A7C15ull;
    else if (a == "-v") optVerbose++;
    else file = a;
  }
  tStart = now();
  tDeadline = tStart + optMaxTime;
  LLVMContext ctx;
  SMDiagnostic err;
  auto mod = parseIRFile(file, err, ctx);
  if (!mod) { err.print("symx", errs()); return 3; }
  M = mod.get();
  DL = &M->getDataLayout();
  Z3_config cfg = Z3_mk_config();
  Z = Z3_mk_context_rc(cfg);
  Z3_del_config(cfg);
  State* s = new State();
  initGlobals(*s);
  Function* F = M->getFunction(optEntry);
  if (!F || F->isDeclaration()) die("no entry " + optEntry);
  // static constructors run first, concretely
  if (auto* GC = M->getGlobalVariable("llvm.global_ctors")) {
    if (auto* CA = dyn_cast<ConstantArray>(GC->getInitializer()))
      for (auto& op : CA->operands()) {
        Function* c = dyn_cast<Function>(cast<ConstantStruct>(op)->getOperand(1)->stripPointerCasts());
        if (!c) continue;
        Frame dummy;
        pushCall(*s, c, {}, nullptr);
        try { while (true) step(*s); } catch (PathEnd&) {}
        if (!s->stack.empty()) popFrame(*s);
      }
  }
  {
    std::vector<E> args;
    for (auto& A : F->args()) args.push_back(mkConst(0, typeBits(A.getType())));
    pushCall(*s, F, args, nullptr);
  }
  work.push_back(s);
  bool timedOut = false;
  if (optJobs > 1) {
    // breadth-first prefix, then one process per job taking states dynamically
    std::deque<State*> q;
    double tPrefix = now() + std::min(10.0, optMaxTime * 0.1);
    while (!work.empty() && (int)work.size() < 24 * optJobs && now() < tPrefix) {
      std::swap(work.front(), work.back());
      // take the oldest state
      State* x = work.back();
      work.pop_back();
      runState(x);
    }
    if (!work.empty()) {
      std::vector<State*> seeds;
      seeds.swap(work);
      // shuffle for balance
      for (size_t i = seeds.size(); i > 1; i--) std::swap(seeds[i - 1], seeds[rnd() % i]);
      auto* ctr = (unsigned*)mmap(nullptr, 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
      *ctr = 0;
      std::vector<pid_t> pids;
      for (int j = 0; j < optJobs; j++) {
        pid_t p = fork();
        if (p == 0) {
          // fresh statistics in the child; the parent keeps the prefix's
          st = Stats();
          errors.clear(); errCount.clear(); covers.clear(); samples.clear(); cutReasons.clear(); samplesSeen = 0;
          rngState += j * 7919;
          bool fin = true;
          while (true) {
            unsigned i = __sync_fetch_and_add(ctr, 1);
            if (i >= seeds.size()) break;
            work.push_back(seeds[i]);
            while (!work.empty()) {
              if (now() > tDeadline) { fin = false; break; }
              State* x = work.back();
              work.pop_back();
              runState(x);
            }
            if (!fin) break;
          }
          writeOut(optOut + "." + std::to_string(j), fin);
          _exit(0);
        }
        pids.push_back(p);
      }
      for (pid_t p : pids) {
        int stt;
        waitpid(p, &stt, 0);
        if (!WIFEXITED(stt) || WEXITSTATUS(stt) != 0) timedOut = true;
      }
    }
    writeOut(optOut, !timedOut);
    return 0;
  }
  while (!work.empty()) {
    if (now() > tDeadline) { timedOut = true; break; }
    State* x = work.back();
    work.pop_back();
    runState(x);
  }
  writeOut(optOut, !timedOut);
  return 0;
}
