// Symbolic execution of LLVM IR: path forking, byte-precise memory, Z3 decides every branch and assertion.
#include "exec.h"
#include <chrono>
#include <cmath>
#include <cstdio>
#include <fstream>
#include <functional>
#include <iostream>
#include <pthread.h>
#include <sstream>
#include <unistd.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Verifier.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Linker/Linker.h>
#include <llvm/Passes/PassBuilder.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Support/raw_ostream.h>
#include <llvm/Transforms/IPO/Internalize.h>

using namespace llvm;
typedef std::string Str;

// ---- options and results --------------------------------------------------------------------------------------
static struct Opts {
  u64 maxSteps = 20000000, maxPaths = 1000000, maxForksPerPath = 100000;
  double timeLimit = 600;
  Str entry = "vf_main", out;
  unsigned maxViol = 3;
  u64 memLimitMB = 6000;
  bool verbose = false, trace = false;
  Str repo = "/repo";
} opt;

struct Violation { Str msg, where; std::vector<std::pair<Str, Str>> inputs; bool internalDep = false; };
static std::vector<Violation> violations;
static std::set<Str> violKeys;
static std::set<Str> reachedAll;
static std::map<Str, u64> incomplete;  // reason -> paths
static std::map<Str, u64> unmodelled;
static u64 nPaths = 0, nSteps = 0, nForks = 0, nAsserts = 0, nAssertQueries = 0, nAssumeCut = 0;
static std::set<Str> funcsEntered;
static std::vector<Str> samplePaths;
static std::chrono::steady_clock::time_point tStart;
static double elapsed() { return std::chrono::duration<double>(std::chrono::steady_clock::now() - tStart).count(); }

static Module* M;
static const DataLayout* DL;
static LLVMContext ctx;
static std::map<u64, ObjP> constMem;  // constant globals: shared by all states
static DenseMap<const Function*, u64> fnAddr;
static std::unordered_map<u64, const Function*> addrFn;
static DenseMap<const GlobalValue*, u64> gAddr;
static DenseMap<const Function*, KFunction*> kfs;
static std::vector<Val> kconsts;
static DenseMap<const Constant*, int> kconstIdx;
static std::vector<std::unique_ptr<State>> work;

struct EndPath { };                   // the current path ends normally
struct Unsupported { Str what; };     // the current path cannot be continued

static State* cur;

// The k-th variable of a path is shared by all paths (per width): models stay small and the query cache is shared.
static E newVar(const Str& name, unsigned w, bool internal) {
  static std::map<std::pair<u64, unsigned>, E> tab;
  E& e = tab[{cur->nextVar++, w}];
  if (!e) e = mkVar(name, w, internal);
  return e;
}

[[noreturn]] static void unsupported(const Str& w) { throw Unsupported{w}; }

// ---- source locations -----------------------------------------------------------------------------------------
static Str locOf(const Instruction* I) {
  if (I) if (auto& dl = I->getDebugLoc()) {
    auto* sc = dyn_cast<DIScope>(dl.getScope());
    return (sc ? sc->getFilename().str() : Str("?")) + ":" + std::to_string(dl.getLine());
  }
  return I ? I->getFunction()->getName().str() : Str("?");
}
static Str stackStr() {
  Str s;
  int n = 0;
  for (int i = (int)cur->st.size() - 1; i >= 0 && n < 10; i--, n++) {
    auto& f = cur->st[i];
    if (n) s += " <- ";
    s += f.kf->F->getName().str() + "@" + locOf(f.kf->code[std::min<size_t>(f.pc, f.kf->code.size() - 1)].I);
  }
  return s;
}

// ---- path condition -------------------------------------------------------------------------------------------
static void addConstraint(State& s, E c) {
  if (c->op == CONST) return;
  if (c->op == AND && c->w == 1) { addConstraint(s, c->a); addConstraint(s, c->b); return; }
  if (s.pcSet.insert(c).second) s.pc.push_back(c);
}
static E negate(E c) { return mkNot1(c); }

// Can cond be true on this path?  On 1, m is a model of the path extended with cond.
static int feasible(State& s, E cond, Model& m) {
  if (cond->op == CONST) { m = s.model; return cond->c ? 1 : 0; }
  if (s.pcSet.count(negate(cond))) return 0;
  if (evalNode(cond, s.model)) { m = s.model; return 1; }
  std::vector<E> q = sliceFor(s.pc, cond);
  m = s.model;
  // a few values tried first: an assignment that satisfies every constraint needs no query
  if (q.size() <= 4 && cond->vars->size() <= 2) {
    static const u128 cand[] = {1, 'a', 0, 2, ~(u128)0, 3};
    if (m.size() < g_vars.size()) m.resize(g_vars.size(), 0);
    for (u128 x : cand) {
      for (auto v : *cond->vars) m[v] = x & maskw(g_vars[v].w);
      bool ok = true;
      for (E e : q) if (!evalNode(e, m)) { ok = false; break; }
      if (ok) { g_ss.guessed++; return 1; }
    }
    m = s.model;
  }
  int r = solve(q, m);
  if (r < 0) unsupported("solver gave no answer within its time limit");
  return r;
}

static void pushFork(std::unique_ptr<State> ns) {
  nForks++;
  ns->forks++;
  work.push_back(std::move(ns));
}

// Decide a 1-bit condition on the current path; forks a copy of the state, re-executing the current instruction, when
// both outcomes are possible.
static bool decide(const Val& v) {
  if (v.conc()) return v.c & 1;
  State& s = *cur;
  E c = v.n;
  bool mv = evalNode(c, s.model) != 0;
  E other = mv ? negate(c) : c;
  Model m;
  if (feasible(s, other, m) == 1) {
    auto ns = std::make_unique<State>(s);
    ns->model = std::move(m);
    addConstraint(*ns, other);
    pushFork(std::move(ns));
    addConstraint(s, mv ? c : negate(c));
  }
  return mv;
}
// A single value for v on this path; forks once per other possible value.
static u128 concretize(const Val& v) {
  if (v.conc()) return v.c;
  State& s = *cur;
  u128 x = evalNode(v.n, s.model);
  E eq = mkBin(EQ, v.n, mkConst(x, v.w));
  if (eq->op == CONST) return x;
  Model m;
  if (feasible(s, negate(eq), m) == 1) {
    auto ns = std::make_unique<State>(s);
    ns->model = m;
    addConstraint(*ns, negate(eq));
    pushFork(std::move(ns));
    addConstraint(s, eq);
  }
  return x;
}

// ---- violations -----------------------------------------------------------------------------------------------
static void recordViolation(const Str& msg, const Model& m) {
  Violation v;
  v.msg = msg;
  v.where = stackStr();
  Str key = msg + "|" + (cur->st.empty() ? "" : locOf(cur->st.back().kf->code[cur->st.back().pc].I));
  static std::map<Str, int> perKey;
  if (++perKey[key] > 2 || violations.size() >= opt.maxViol * 4) return;
  for (auto& r : cur->inputs) {
    Str hex;
    char b[4];
    for (E e : r.bytes) { snprintf(b, sizeof b, "%02x", (unsigned)evalNode(e, m)); hex += b; }
    v.inputs.push_back({r.name, hex});
  }
  violations.push_back(v);
}
[[noreturn]] static void failPath(const Str& msg) {
  recordViolation(msg, cur->model);
  throw EndPath();
}

// ---- memory ---------------------------------------------------------------------------------------------------
static ObjP mkObj(u64 base, u64 size, Obj::Kind k, const Str& name, bool uninit) {
  auto o = std::make_shared<Obj>();
  o->base = base;
  o->size = size;
  o->kind = k;
  o->name = name;
  o->c.assign(size, 0);
  if (uninit) o->u.assign(size, 1);
  return o;
}
static u64 alignUp(u64 v, u64 a) { return (v + a - 1) & ~(a - 1); }
static u64 allocHeap(u64 size, const Str& name, bool uninit, uint8_t fn, u64 align = 16) {
  State& s = *cur;
  if (size > (1u << 26)) unsupported("allocation larger than 64 MiB");
  s.heapPtr = alignUp(s.heapPtr, align);
  u64 a = s.heapPtr;
  s.heapPtr = alignUp(a + std::max<u64>(size, 1) + 32, 16);
  auto o = mkObj(a, size, Obj::HEAP, name, uninit);
  o->allocFn = fn;
  s.mem[a] = o;
  s.live++;
  return a;
}
static u64 allocStack(u64 size, const Str& name) {
  State& s = *cur;
  u64 a = alignUp(s.stackPtr, 16);
  s.stackPtr = a + size + 32;
  s.mem[a] = mkObj(a, size, Obj::STACK, name, true);
  return a;
}
static ObjP findObj(State& s, u64 addr, bool endOk = false) {
  for (auto* mp : {&s.mem, &constMem}) {
    auto it = mp->upper_bound(addr);
    if (it == mp->begin()) continue;
    --it;
    auto& o = it->second;
    if (addr < o->base + o->size || (addr == o->base + o->size && (endOk || o->size == 0))) return o;
  }
  return nullptr;
}
static Obj* writable(ObjP o) {
  State& s = *cur;
  auto it = s.mem.find(o->base);
  if (it == s.mem.end() || o->ro) failPath("write to read-only memory (" + o->name + ")");
  if (it->second.use_count() > 2) it->second = std::make_shared<Obj>(*it->second);  // o itself holds one reference
  return it->second.get();
}
static Str describeAddr(u64 a) {
  char b[64];
  snprintf(b, sizeof b, "0x%llx", (unsigned long long)a);
  Str near;
  auto it = cur->mem.upper_bound(a);
  if (it != cur->mem.begin()) {
    --it;
    u64 d = a - it->second->base;
    if (d < it->second->size + 4096) near = ", " + std::to_string(d) + " bytes into the " + std::to_string(it->second->size) + "-byte object " + it->second->name;
  }
  return Str(b) + near;
}
static E byteAt(ObjP& o, u64 i) {
  if (!o->u.empty() && o->u[i]) {
    Obj* w = writable(o);
    if (w->s.empty()) w->s.assign(w->size, nullptr);
    w->s[i] = newVar("uninit", 8, true);
    w->u[i] = 0;
    o = cur->mem[o->base];
  }
  if (!o->s.empty() && o->s[i]) return o->s[i];
  return mkConst(o->c[i], 8);
}
static Val loadBits(ObjP o, u64 off, unsigned w) {
  unsigned nb = (w + 7) / 8;
  bool conc = true;
  if (!o->s.empty()) for (unsigned i = 0; i < nb; i++) if (o->s[off + i]) { conc = false; break; }
  if (conc && !o->u.empty()) for (unsigned i = 0; i < nb; i++) if (o->u[off + i]) { conc = false; break; }
  if (conc) {
    u128 v = 0;
    for (unsigned i = 0; i < nb; i++) v |= (u128)o->c[off + i] << (8 * i);
    return Val(v, w);
  }
  E e = byteAt(o, off);
  for (unsigned i = 1; i < nb; i++) e = mkConcat(byteAt(o, off + i), e);
  if (e->w != w) e = mkExtract(e, 0, w);
  return Val(e);
}
static void storeBits(Obj* o, u64 off, const Val& v) {
  unsigned nb = (v.w + 7) / 8;
  if (v.conc()) {
    for (unsigned i = 0; i < nb; i++) o->c[off + i] = (uint8_t)(v.c >> (8 * i));
    if (!o->s.empty()) for (unsigned i = 0; i < nb; i++) o->s[off + i] = nullptr;
  } else {
    if (o->s.empty()) o->s.assign(o->size, nullptr);
    E e = v.n;
    if (nb * 8 != v.w) e = mkZExt(e, nb * 8);
    for (unsigned i = 0; i < nb; i++) {
      E b = mkExtract(e, 8 * i, 8);
      if (b->op == CONST) { o->s[off + i] = nullptr; o->c[off + i] = (uint8_t)b->c; }
      else o->s[off + i] = b;
    }
  }
  if (!o->u.empty()) for (unsigned i = 0; i < nb; i++) o->u[off + i] = 0;
}

// The object an n-byte access at address a falls into; forks over the possible objects.  A path on which the access
// falls outside every object is a violation.
static ObjP resolve(const Val& a, u64 n, const char* what) {
  State& s = *cur;
  if (a.conc()) {
    u64 x = (u64)a.c;
    ObjP o = findObj(s, x, n == 0);
    if (!o || x + n > o->base + o->size) {
      if (n == 0) return o;
      failPath(Str("invalid ") + what + " of " + std::to_string(n) + " bytes at " + (x < 4096 ? (x ? "null+" + std::to_string(x) : Str("null")) : describeAddr(x)));
    }
    return o;
  }
  u64 x = (u64)evalNode(a.n, s.model);
  ObjP o = findObj(s, x);
  if (!o || x + n > o->base + o->size) {
    // the witness itself is a bad access; let the paths with good accesses continue separately
    if (o && o->size >= n) {
      E in = mkBin(ULE, mkBin(SUB, a.n, mkConst(o->base, 64)), mkConst(o->size - n, 64));
      Model m;
      if (feasible(s, in, m) == 1) {
        auto ns = std::make_unique<State>(s);
        ns->model = m;
        addConstraint(*ns, in);
        pushFork(std::move(ns));
      }
    }
    failPath(Str("invalid ") + what + " of " + std::to_string(n) + " bytes at symbolic address, e.g. " + describeAddr(x));
  }
  E in = mkBin(ULE, mkBin(SUB, a.n, mkConst(o->base, 64)), mkConst(o->size - n, 64));
  Model m;
  if (feasible(s, negate(in), m) == 1) {
    auto ns = std::make_unique<State>(s);
    ns->model = m;
    addConstraint(*ns, negate(in));
    pushFork(std::move(ns));
    addConstraint(s, in);
  }
  return o;
}
static Val loadScalar(const Val& a, unsigned w) {
  unsigned nb = (w + 7) / 8;
  ObjP o = resolve(a, nb, "read");
  if (a.conc()) return loadBits(o, (u64)a.c - o->base, w);
  E off = mkBin(SUB, a.n, mkConst(o->base, 64));
  unsigned tz = std::min(trailingZeros(off), 12u);
  u64 step = 1ull << tz, cnt = (o->size - nb) / step + 1;
  if (cnt > 300) return loadBits(o, (u64)concretize(a) - o->base, w);
  E r = nullptr;
  for (u64 i = cnt; i-- > 0;) {
    E v = loadBits(o, i * step, w).node();
    if (!o->u.empty()) o = findObj(*cur, o->base, true);
    r = r ? mkIte(mkBin(EQ, off, mkConst(i * step, 64)), v, r) : v;
  }
  return Val(r);
}
static void storeScalar(const Val& a, const Val& v) {
  unsigned nb = (v.w + 7) / 8;
  ObjP o = resolve(a, nb, "write");
  if (a.conc()) { Obj* w = writable(o); storeBits(w, (u64)a.c - w->base, v); return; }
  E off = mkBin(SUB, a.n, mkConst(o->base, 64));
  unsigned tz = std::min(trailingZeros(off), 12u);
  u64 step = 1ull << tz, cnt = (o->size - nb) / step + 1;
  if (cnt > 128) { u64 x = (u64)concretize(a); Obj* w = writable(o); storeBits(w, x - w->base, v); return; }
  Obj* w = writable(o);
  o = cur->mem[w->base];
  std::vector<Val> olds;
  E ve = v.node();
  if (nb * 8 != v.w) ve = mkZExt(ve, nb * 8);
  for (u64 i = 0; i < w->size; i++) {
    E old = nullptr;
    for (unsigned k = 0; k < nb; k++) {
      if (i < k || (i - k) % step) continue;
      u64 st = i - k;
      if (st / step >= cnt) continue;
      if (!old) { old = byteAt(o, i); }
      old = mkIte(mkBin(EQ, off, mkConst(st, 64)), mkExtract(ve, 8 * k, 8), old);
    }
    if (old) { w = writable(o); o = cur->mem[w->base]; storeBits(w, i, Val(old)); }
  }
}

static unsigned bitsOf(Type* t) {
  if (t->isIntegerTy()) return t->getIntegerBitWidth();
  if (t->isPointerTy()) return 64;
  if (t->isFloatTy()) return 32;
  if (t->isDoubleTy()) return 64;
  if (t->isX86_FP80Ty()) return 80;
  if (t->isHalfTy()) return 16;
  if (t->isFP128Ty()) return 128;
  return 0;
}
static Val mkAgg(std::vector<Val> v) {
  Val r;
  r.agg = std::make_shared<std::vector<Val>>(std::move(v));
  return r;
}
static Val addPtr(const Val& p, u64 off) {
  if (!off) return p;
  if (p.conc()) return Val(p.c + off, 64);
  return Val(mkBin(ADD, p.n, mkConst(off, 64)));
}
static Val loadType(const Val& a, Type* t) {
  if (auto* st = dyn_cast<StructType>(t)) {
    auto* sl = DL->getStructLayout(st);
    std::vector<Val> v;
    for (unsigned i = 0; i < st->getNumElements(); i++) v.push_back(loadType(addPtr(a, sl->getElementOffset(i)), st->getElementType(i)));
    return mkAgg(v);
  }
  if (auto* at = dyn_cast<ArrayType>(t)) {
    std::vector<Val> v;
    u64 es = DL->getTypeAllocSize(at->getElementType());
    for (u64 i = 0; i < at->getNumElements(); i++) v.push_back(loadType(addPtr(a, i * es), at->getElementType()));
    return mkAgg(v);
  }
  if (auto* vt = dyn_cast<FixedVectorType>(t)) {
    std::vector<Val> v;
    unsigned b = bitsOf(vt->getElementType());
    if (b % 8) unsupported("vector of sub-byte elements in memory");
    for (unsigned i = 0; i < vt->getNumElements(); i++) v.push_back(loadScalar(addPtr(a, i * (b / 8)), b));
    return mkAgg(v);
  }
  unsigned w = bitsOf(t);
  if (!w || w > 128) unsupported("load of a type wider than 128 bits");
  return loadScalar(a, w);
}
static void storeType(const Val& a, const Val& v, Type* t) {
  if (auto* st = dyn_cast<StructType>(t)) {
    auto* sl = DL->getStructLayout(st);
    for (unsigned i = 0; i < st->getNumElements(); i++) storeType(addPtr(a, sl->getElementOffset(i)), (*v.agg)[i], st->getElementType(i));
    return;
  }
  if (auto* at = dyn_cast<ArrayType>(t)) {
    u64 es = DL->getTypeAllocSize(at->getElementType());
    for (u64 i = 0; i < at->getNumElements(); i++) storeType(addPtr(a, i * es), (*v.agg)[i], at->getElementType());
    return;
  }
  if (auto* vt = dyn_cast<FixedVectorType>(t)) {
    unsigned b = bitsOf(vt->getElementType());
    if (b % 8) unsupported("vector of sub-byte elements in memory");
    for (unsigned i = 0; i < vt->getNumElements(); i++) storeScalar(addPtr(a, i * (b / 8)), (*v.agg)[i]);
    return;
  }
  if (!bitsOf(t) || bitsOf(t) > 128) unsupported("store of a type wider than 128 bits");
  storeScalar(a, v);
}
static void copyMem(const Val& dst, const Val& src, u64 n) {
  if (!n) return;
  ObjP so = resolve(src, n, "read");
  ObjP d0 = resolve(dst, n, "write");
  u64 sa = (u64)concretize(src), da = (u64)concretize(dst);
  std::vector<uint8_t> c(so->c.begin() + (sa - so->base), so->c.begin() + (sa - so->base) + n);
  std::vector<E> s;
  std::vector<uint8_t> u;
  if (!so->s.empty()) s.assign(so->s.begin() + (sa - so->base), so->s.begin() + (sa - so->base) + n);
  if (!so->u.empty()) u.assign(so->u.begin() + (sa - so->base), so->u.begin() + (sa - so->base) + n);
  so.reset();
  Obj* d = writable(d0);
  u64 off = da - d->base;
  std::copy(c.begin(), c.end(), d->c.begin() + off);
  if (!s.empty() && d->s.empty()) d->s.assign(d->size, nullptr);
  if (!d->s.empty()) for (u64 i = 0; i < n; i++) d->s[off + i] = s.empty() ? nullptr : s[i];
  if (!u.empty() && d->u.empty()) d->u.assign(d->size, 0);
  if (!d->u.empty()) for (u64 i = 0; i < n; i++) d->u[off + i] = u.empty() ? 0 : u[i];
}
static void setMem(const Val& dst, const Val& b, u64 n) {
  if (!n) return;
  ObjP o = resolve(dst, n, "write");
  u64 da = (u64)concretize(dst);
  Obj* d = writable(o);
  Val byte = b.conc() ? Val(b.c & 0xff, 8) : Val(mkExtract(b.n, 0, 8));
  for (u64 i = 0; i < n; i++) storeBits(d, da - d->base + i, byte);
}
static Str cstr(const Val& p) {  // a string that must be concrete (names, formats)
  u64 a = (u64)concretize(p);
  Str r;
  for (;;) {
    Val b = loadScalar(Val(a++, 64), 8);
    u128 c = concretize(b);
    if (!c) return r;
    r.push_back((char)c);
    if (r.size() > 100000) unsupported("unterminated string");
  }
}

// ---- constants ------------------------------------------------------------------------------------------------
static Val constVal(const Constant* C);
static u64 gepConst(const GEPOperator* g) {
  u64 a = (u64)constVal(cast<Constant>(g->getPointerOperand())).c;
  for (auto it = gep_type_begin(g), e = gep_type_end(g); it != e; ++it) {
    s64 idx = cast<ConstantInt>(it.getOperand())->getSExtValue();
    if (auto* st = it.getStructTypeOrNull()) a += DL->getStructLayout(st)->getElementOffset((unsigned)idx);
    else a += idx * (s64)DL->getTypeAllocSize(it.getIndexedType()).getFixedValue();
  }
  return a;
}
static u128 apToU(const APInt& a) {
  u128 r = a.getRawData()[0];
  if (a.getBitWidth() > 64) r |= (u128)a.getRawData()[1] << 64;
  return r;
}
static Val constVal(const Constant* C) {
  Type* t = C->getType();
  if (auto* ci = dyn_cast<ConstantInt>(C)) {
    if (ci->getBitWidth() > 128) unsupported("integer constant wider than 128 bits");
    return Val(apToU(ci->getValue()), ci->getBitWidth());
  }
  if (auto* cf = dyn_cast<ConstantFP>(C)) return Val(apToU(cf->getValueAPF().bitcastToAPInt()), bitsOf(t));
  if (auto* f = dyn_cast<Function>(C)) return Val(fnAddr.lookup(f), 64);
  if (auto* ga = dyn_cast<GlobalAlias>(C)) return constVal(ga->getAliasee());
  if (auto* g = dyn_cast<GlobalValue>(C)) return Val(gAddr.lookup(g), 64);
  if (isa<ConstantAggregateZero>(C) || isa<UndefValue>(C)) {
    if (auto* st = dyn_cast<StructType>(t)) {
      std::vector<Val> v;
      for (auto* et : st->elements()) v.push_back(constVal(isa<UndefValue>(C) ? (Constant*)UndefValue::get(et) : Constant::getNullValue(et)));
      return mkAgg(v);
    }
    Type* et = nullptr;
    u64 n = 0;
    if (auto* at = dyn_cast<ArrayType>(t)) { et = at->getElementType(); n = at->getNumElements(); }
    if (auto* vt = dyn_cast<FixedVectorType>(t)) { et = vt->getElementType(); n = vt->getNumElements(); }
    if (et) return mkAgg(std::vector<Val>(n, constVal(Constant::getNullValue(et))));
    return Val(0, bitsOf(t));
  }
  if (isa<ConstantPointerNull>(C)) return Val(0, 64);
  if (isa<ConstantAggregate>(C)) {
    std::vector<Val> v;
    for (unsigned i = 0; i < C->getNumOperands(); i++) v.push_back(constVal(cast<Constant>(C->getOperand(i))));
    return mkAgg(v);
  }
  if (auto* cd = dyn_cast<ConstantDataSequential>(C)) {
    std::vector<Val> v;
    for (unsigned i = 0; i < cd->getNumElements(); i++) v.push_back(constVal(cd->getElementAsConstant(i)));
    return mkAgg(v);
  }
  if (auto* ce = dyn_cast<ConstantExpr>(C)) {
    if (auto* g = dyn_cast<GEPOperator>(ce)) return Val(gepConst(g), 64);
    auto op = [&](int i) { return constVal(cast<Constant>(ce->getOperand(i))); };
    switch (ce->getOpcode()) {
      case Instruction::PtrToInt: case Instruction::IntToPtr: case Instruction::BitCast: case Instruction::Trunc:
      case Instruction::ZExt: return Val(op(0).c, bitsOf(t));
      case Instruction::Add: return Val(op(0).c + op(1).c, bitsOf(t));
      case Instruction::Sub: return Val(op(0).c - op(1).c, bitsOf(t));
      case Instruction::ICmp: {
        Val a = op(0), b = op(1);
        if (ce->getPredicate() == CmpInst::ICMP_EQ) return Val(a.c == b.c, 1);
        if (ce->getPredicate() == CmpInst::ICMP_NE) return Val(a.c != b.c, 1);
      }
    }
    Str s; raw_string_ostream os(s); ce->print(os);
    unsupported("constant expression " + s);
  }
  Str s; raw_string_ostream os(s); C->print(os);
  unsupported("constant " + s);
}
static void initConst(Obj* o, u64 off, const Constant* C) {
  Type* t = C->getType();
  if (isa<ConstantAggregateZero>(C) || isa<UndefValue>(C) || isa<ConstantPointerNull>(C)) return;
  if (auto* cd = dyn_cast<ConstantDataSequential>(C)) {
    StringRef raw = cd->getRawDataValues();
    u64 es = DL->getTypeAllocSize(cd->getElementType());
    if (es == cd->getElementByteSize()) { memcpy(&o->c[off], raw.data(), raw.size()); return; }
  }
  if (auto* st = dyn_cast<StructType>(t)) {
    auto* sl = DL->getStructLayout(st);
    for (unsigned i = 0; i < st->getNumElements(); i++) initConst(o, off + sl->getElementOffset(i), C->getAggregateElement(i));
    return;
  }
  if (auto* at = dyn_cast<ArrayType>(t)) {
    u64 es = DL->getTypeAllocSize(at->getElementType());
    for (u64 i = 0; i < at->getNumElements(); i++) initConst(o, off + i * es, C->getAggregateElement((unsigned)i));
    return;
  }
  if (auto* vt = dyn_cast<FixedVectorType>(t)) {
    u64 es = DL->getTypeStoreSize(vt->getElementType());
    for (u64 i = 0; i < vt->getNumElements(); i++) initConst(o, off + i * es, C->getAggregateElement((unsigned)i));
    return;
  }
  storeBits(o, off, constVal(C));
}

// ---- compilation of functions to a flat form ----------------------------------------------------------------------
static int constIndex(const Constant* C) {
  auto it = kconstIdx.find(C);
  if (it != kconstIdx.end()) return it->second;
  int i = kconsts.size();
  kconsts.push_back(constVal(C));
  kconstIdx[C] = i;
  return i;
}
static KFunction* getKF(const Function* F) {
  auto it = kfs.find(F);
  if (it != kfs.end()) return it->second;
  auto* k = new KFunction;
  k->F = F;
  kfs[F] = k;
  DenseMap<const Value*, int> num;
  for (auto& a : F->args()) num[&a] = k->nregs++;
  int n = 0, b = 0;
  for (auto& bb : *F) {
    k->bbIdx[&bb] = b++;
    k->bbStart.push_back(n);
    for (auto& i : bb) {
      n++;
      if (!i.getType()->isVoidTy()) num[&i] = k->nregs++;
    }
  }
  for (auto& bb : *F)
    for (auto& i : bb) {
      KInst ki;
      ki.I = &i;
      if (!i.getType()->isVoidTy()) ki.dst = num[&i];
      for (unsigned o = 0; o < i.getNumOperands(); o++) {
        const Value* v = i.getOperand(o);
        if (auto* c = dyn_cast<Constant>(v)) ki.ops.push_back(~constIndex(c));
        else if (isa<BasicBlock>(v)) { ki.ops.push_back(0); }
        else if (isa<MetadataAsValue>(v) || isa<InlineAsm>(v)) ki.ops.push_back(INT32_MIN);
        else ki.ops.push_back(num.lookup(v));
      }
      if (i.isTerminator())
        for (unsigned s = 0; s < i.getNumSuccessors(); s++) {
          int bi = k->bbIdx[i.getSuccessor(s)];
          ki.succBB.push_back(bi);
          ki.succ.push_back(k->bbStart[bi]);
        }
      k->code.push_back(std::move(ki));
    }
  if (auto* sp = F->getSubprogram()) k->fromRepo = sp->getFilename().str().find(opt.repo + "/") == 0 || (sp->getDirectory() + "/" + sp->getFilename()).str().find(opt.repo + "/") != Str::npos;
  return k;
}

static inline Val& reg(Frame& f, int i) { return i >= 0 ? f.regs[i] : kconsts[~i]; }

// ---- floating point -------------------------------------------------------------------------------------------
static double toD(u128 c) { u64 x = (u64)c; double d; memcpy(&d, &x, 8); return d; }
static float toF(u128 c) { uint32_t x = (uint32_t)c; float d; memcpy(&d, &x, 4); return d; }
static long double toL(u128 c) { long double d = 0; memcpy(&d, &c, 10); return d; }
static u128 fromD(double d) { u64 x; memcpy(&x, &d, 8); return x; }
static u128 fromF(float d) { uint32_t x; memcpy(&x, &d, 4); return x; }
static u128 fromL(long double d) { u128 x = 0; memcpy(&x, &d, 10); return x; }
static long double fpAsL(const Val& v) { return v.w == 32 ? toF(v.c) : v.w == 64 ? toD(v.c) : toL(v.c); }
static Val fpFromL(long double d, unsigned w) { return w == 32 ? Val(fromF((float)d), 32) : w == 64 ? Val(fromD((double)d), 64) : Val(fromL(d), 80); }
static E fIsNan(E a) {
  if (a->w == 32) return mkBin(ULT, mkConst(0x7f800000, 32), mkBin(AND, a, mkConst(0x7fffffff, 32)));
  if (a->w == 64) return mkBin(ULT, mkConst(0x7ff0000000000000ull, 64), mkBin(AND, a, mkConst(0x7fffffffffffffffull, 64)));
  if (a->w == 80) {
    // x87: exponent all ones with a non-zero fraction or a clear integer bit, or a non-zero exponent with a clear
    // integer bit (invalid operand): all compare unordered
    E ex = mkExtract(a, 64, 15), ib = mkExtract(a, 63, 1), fr = mkExtract(a, 0, 63);
    E expMax = mkBin(EQ, ex, mkConst(0x7fff, 15)), exp0 = mkBin(EQ, ex, mkConst(0, 15));
    E nan = mkBin(AND, expMax, mkNot1(mkBin(EQ, fr, mkConst(0, 63))));
    E inv = mkBin(AND, mkNot1(exp0), mkNot1(ib));
    return mkBin(OR, nan, inv);
  }
  unsupported("floating point width");
}
static E fIsZero(E a) { return mkBin(EQ, mkExtract(a, 0, a->w - 1), mkConst(0, a->w - 1)); }
static E fEqOrd(E a, E b) {  // neither NaN
  return mkBin(OR, mkBin(EQ, a, b), mkBin(AND, fIsZero(a), fIsZero(b)));
}
static E fLtOrd(E a, E b) {
  unsigned w = a->w;
  E sa = mkExtract(a, w - 1, 1), sb = mkExtract(b, w - 1, 1);
  E ma = mkExtract(a, 0, w - 1), mb = mkExtract(b, 0, w - 1);
  E bothZ = mkBin(AND, fIsZero(a), fIsZero(b));
  E r = mkIte(sa, mkIte(sb, mkBin(ULT, mb, ma), mkConst(1, 1)), mkIte(sb, mkConst(0, 1), mkBin(ULT, ma, mb)));
  return mkBin(AND, mkNot1(bothZ), r);
}
static Val fcmp(CmpInst::Predicate p, const Val& a, const Val& b) {
  if (a.conc() && b.conc()) {
    long double x = fpAsL(a), y = fpAsL(b);
    bool un = std::isnan(x) || std::isnan(y), r = false;
    switch (p) {
      case CmpInst::FCMP_FALSE: r = false; break;
      case CmpInst::FCMP_TRUE: r = true; break;
      case CmpInst::FCMP_ORD: r = !un; break;
      case CmpInst::FCMP_UNO: r = un; break;
      case CmpInst::FCMP_OEQ: r = !un && x == y; break;
      case CmpInst::FCMP_ONE: r = !un && x != y; break;
      case CmpInst::FCMP_OLT: r = !un && x < y; break;
      case CmpInst::FCMP_OLE: r = !un && x <= y; break;
      case CmpInst::FCMP_OGT: r = !un && x > y; break;
      case CmpInst::FCMP_OGE: r = !un && x >= y; break;
      case CmpInst::FCMP_UEQ: r = un || x == y; break;
      case CmpInst::FCMP_UNE: r = un || x != y; break;
      case CmpInst::FCMP_ULT: r = un || x < y; break;
      case CmpInst::FCMP_ULE: r = un || x <= y; break;
      case CmpInst::FCMP_UGT: r = un || x > y; break;
      case CmpInst::FCMP_UGE: r = un || x >= y; break;
      default: break;
    }
    return Val(r, 1);
  }
  E x = a.node(), y = b.node();
  E un = mkBin(OR, fIsNan(x), fIsNan(y)), od = mkNot1(un);
  E eq = fEqOrd(x, y);
  switch (p) {
    case CmpInst::FCMP_FALSE: return Val(0, 1);
    case CmpInst::FCMP_TRUE: return Val(1, 1);
    case CmpInst::FCMP_ORD: return Val(od);
    case CmpInst::FCMP_UNO: return Val(un);
    case CmpInst::FCMP_OEQ: return Val(mkBin(AND, od, eq));
    case CmpInst::FCMP_ONE: return Val(mkBin(AND, od, mkNot1(eq)));
    case CmpInst::FCMP_UEQ: return Val(mkBin(OR, un, eq));
    case CmpInst::FCMP_UNE: return Val(mkBin(OR, un, mkNot1(eq)));
    case CmpInst::FCMP_OLT: return Val(mkBin(AND, od, fLtOrd(x, y)));
    case CmpInst::FCMP_OGT: return Val(mkBin(AND, od, fLtOrd(y, x)));
    case CmpInst::FCMP_OLE: return Val(mkBin(AND, od, mkBin(OR, eq, fLtOrd(x, y))));
    case CmpInst::FCMP_OGE: return Val(mkBin(AND, od, mkBin(OR, eq, fLtOrd(y, x))));
    case CmpInst::FCMP_ULT: return Val(mkBin(OR, un, fLtOrd(x, y)));
    case CmpInst::FCMP_UGT: return Val(mkBin(OR, un, fLtOrd(y, x)));
    case CmpInst::FCMP_ULE: return Val(mkBin(OR, un, mkBin(OR, eq, fLtOrd(x, y))));
    case CmpInst::FCMP_UGE: return Val(mkBin(OR, un, mkBin(OR, eq, fLtOrd(y, x))));
    default: unsupported("fcmp predicate");
  }
}
static Val opaque(const char* what, unsigned w) {
  unmodelled[Str("approximated as an arbitrary value: ") + what]++;
  return Val(newVar(what, w, true));
}

// ---- integer operators ------------------------------------------------------------------------------------------
static Val binop(Op op, const Val& a, const Val& b) {
  if (a.conc() && b.conc()) {
    bool cmp = op >= EQ && op <= SLE;
    return Val(foldBin(op, a.c, b.c, a.w), cmp ? 1 : a.w);
  }
  return Val(mkBin(op, a.node(), b.node()));
}
static Val icmp(CmpInst::Predicate p, const Val& a, const Val& b) {
  auto nt = [](Val v) { return v.conc() ? Val(v.c ^ 1, 1) : Val(mkNot1(v.n)); };
  switch (p) {
    case CmpInst::ICMP_EQ: return binop(EQ, a, b);
    case CmpInst::ICMP_NE: return nt(binop(EQ, a, b));
    case CmpInst::ICMP_ULT: return binop(ULT, a, b);
    case CmpInst::ICMP_ULE: return binop(ULE, a, b);
    case CmpInst::ICMP_UGT: return binop(ULT, b, a);
    case CmpInst::ICMP_UGE: return binop(ULE, b, a);
    case CmpInst::ICMP_SLT: return binop(SLT, a, b);
    case CmpInst::ICMP_SLE: return binop(SLE, a, b);
    case CmpInst::ICMP_SGT: return binop(SLT, b, a);
    case CmpInst::ICMP_SGE: return binop(SLE, b, a);
    default: unsupported("icmp predicate");
  }
}
static Val zext(const Val& a, unsigned w) { return a.conc() ? Val(a.c, w) : Val(mkZExt(a.n, w)); }
static Val sext(const Val& a, unsigned w) { return a.conc() ? Val((u128)sextw(a.c, a.w), w) : Val(mkSExt(a.n, w)); }
static Val trunc_(const Val& a, unsigned w) { return a.conc() ? Val(a.c, w) : Val(mkExtract(a.n, 0, w)); }
static Val resize(const Val& a, unsigned w, bool sg) { return a.w == w ? a : a.w > w ? trunc_(a, w) : sg ? sext(a, w) : zext(a, w); }
static Val ite(const Val& c, const Val& t, const Val& f) {
  if (c.conc()) return c.c & 1 ? t : f;
  if (t.agg || f.agg) {
    std::vector<Val> v;
    for (size_t i = 0; i < t.agg->size(); i++) v.push_back(ite(c, (*t.agg)[i], (*f.agg)[i]));
    return mkAgg(v);
  }
  return Val(mkIte(c.n, t.node(), f.node()));
}
static Val mapVec(const Val& a, const std::function<Val(const Val&)>& f) {
  std::vector<Val> v;
  for (auto& x : *a.agg) v.push_back(f(x));
  return mkAgg(v);
}

static Val fparith(unsigned opc, const Val& a, const Val& b) {
  if (!a.conc() || !b.conc()) return opaque("floating-point arithmetic", a.w);
  if (a.w == 32) {
    float x = toF(a.c), y = toF(b.c), r;
    switch (opc) { case Instruction::FAdd: r = x + y; break; case Instruction::FSub: r = x - y; break; case Instruction::FMul: r = x * y; break; case Instruction::FDiv: r = x / y; break; default: r = fmodf(x, y); }
    return Val(fromF(r), 32);
  }
  if (a.w == 64) {
    double x = toD(a.c), y = toD(b.c), r;
    switch (opc) { case Instruction::FAdd: r = x + y; break; case Instruction::FSub: r = x - y; break; case Instruction::FMul: r = x * y; break; case Instruction::FDiv: r = x / y; break; default: r = fmod(x, y); }
    return Val(fromD(r), 64);
  }
  long double x = toL(a.c), y = toL(b.c), r;
  switch (opc) { case Instruction::FAdd: r = x + y; break; case Instruction::FSub: r = x - y; break; case Instruction::FMul: r = x * y; break; case Instruction::FDiv: r = x / y; break; default: r = fmodl(x, y); }
  return Val(fromL(r), 80);
}

// ---- formatted output -------------------------------------------------------------------------------------------
struct ArgSrc { std::function<Val(unsigned bits, bool fp80)> next; };
static E inRangeByte(E v, unsigned lo, unsigned hi) {
  return mkBin(AND, mkBin(ULE, mkConst(lo, 8), v), mkBin(ULE, v, mkConst(hi, 8)));
}
static void digitsOf(std::vector<Val>& out, const Val& v, unsigned base, bool upper, unsigned minDigits = 1) {
  // exact digits of a symbolic unsigned value: forks on the number of digits
  unsigned w = v.w;
  unsigned maxd = 0;
  for (u128 m = maskw(w); m; m /= base) maxd++;
  unsigned nd = 1;
  u128 p = base;
  for (; minDigits > maxd; minDigits--) out.push_back(Val('0', 8));
  while (nd < minDigits) { nd++; if (nd < maxd) p *= base; }
  while (nd < maxd) {
    if (decide(binop(ULT, v, Val(p, w)))) break;
    nd++;
    if (nd < maxd) p *= base;
  }
  u128 q = 1;
  for (unsigned i = 1; i < nd; i++) q *= base;
  for (unsigned i = 0; i < nd; i++, q /= base) {
    Val d = binop(UREM, binop(UDIV, v, Val(q, w)), Val(base, w));
    Val d8 = trunc_(w < 8 ? zext(d, 8) : d, 8);
    Val ch = ite(binop(ULT, d8, Val(10, 8)), binop(ADD, d8, Val('0', 8)), binop(ADD, d8, Val((upper ? 'A' : 'a') - 10, 8)));
    out.push_back(ch);
  }
}
static void formatOut(std::vector<Val>& out, const Str& fmt, ArgSrc& args) {
  for (size_t i = 0; i < fmt.size(); i++) {
    if (fmt[i] != '%') { out.push_back(Val((uint8_t)fmt[i], 8)); continue; }
    size_t st = i++;
    if (i < fmt.size() && fmt[i] == '%') { out.push_back(Val('%', 8)); continue; }
    bool alt = false, left = false, zero = false;
    while (i < fmt.size() && strchr("-+ #0", fmt[i])) { if (fmt[i] == '#') alt = true; if (fmt[i] == '-') left = true; if (fmt[i] == '0') zero = true; i++; }
    int width = -1, prec = -1;
    if (i < fmt.size() && fmt[i] == '*') { width = (int)concretize(args.next(32, false)); i++; }
    else if (i < fmt.size() && isdigit(fmt[i])) { width = 0; while (isdigit(fmt[i])) width = width * 10 + (fmt[i++] - '0'); }
    if (i < fmt.size() && fmt[i] == '.') {
      i++; prec = 0;
      if (fmt[i] == '*') { prec = (int)concretize(args.next(32, false)); i++; }
      else while (i < fmt.size() && isdigit(fmt[i])) prec = prec * 10 + (fmt[i++] - '0');
    }
    int lng = 0; bool bigL = false;
    while (i < fmt.size() && strchr("hlLqjzt", fmt[i])) {
      if (fmt[i] == 'h') lng--; else if (fmt[i] == 'L') bigL = true; else if (fmt[i] == 'l') lng++; else lng = 2;
      i++;
    }
    if (i >= fmt.size()) return;
    char cv = fmt[i];
    Str spec = fmt.substr(st, i - st);
    // the specification with any '*' replaced and the length modifiers dropped
    Str flags;
    for (size_t k = st + 1; k < fmt.size() && strchr("-+ #0", fmt[k]); k++) flags += fmt[k];
    Str fs = "%" + flags + (width >= 0 ? std::to_string(width) : Str()) + (prec >= 0 ? "." + std::to_string(prec) : Str());
    auto emit = [&](const Str& t) { for (char c : t) out.push_back(Val((uint8_t)c, 8)); };
    char buf[6000];
    switch (cv) {
      case 'd': case 'i': case 'u': case 'x': case 'X': case 'o': {
        unsigned w = lng >= 1 ? 64 : 32;
        Val v = args.next(w, false);
        unsigned ew = lng == -1 ? 16 : lng <= -2 ? 8 : w;
        v = resize(v, ew, false);
        bool sg = cv == 'd' || cv == 'i';
        if (v.conc()) {
          Str f2 = fs + "ll" + cv;
          if (sg) snprintf(buf, sizeof buf, f2.c_str(), (long long)sextw(v.c, ew));
          else snprintf(buf, sizeof buf, f2.c_str(), (unsigned long long)v.c);
          emit(buf);
        } else if (cur->exactFmt && prec < 0) {
          std::vector<Val> t;
          auto put = [&](const char* c) { for (; *c; c++) t.push_back(Val((uint8_t)*c, 8)); };
          if (sg && decide(binop(SLT, v, Val(0, ew)))) { put("-"); v = binop(SUB, Val(0, ew), v); }
          if (alt && (cv == 'x' || cv == 'X')) { if (!decide(binop(EQ, v, Val(0, ew)))) put(cv == 'x' ? "0x" : "0X"); }
          digitsOf(t, v, cv == 'x' || cv == 'X' ? 16 : cv == 'o' ? 8 : 10, cv == 'X', zero && !left && width > (int)t.size() ? width - (int)t.size() : 1);
          int pad = width > (int)t.size() ? width - (int)t.size() : 0;
          if (!left) for (int k = 0; k < pad; k++) out.push_back(Val(' ', 8));
          out.insert(out.end(), t.begin(), t.end());
          if (left) for (int k = 0; k < pad; k++) out.push_back(Val(' ', 8));
        } else {
          unmodelled["digits of a formatted symbolic integer approximated by one arbitrary digit"]++;
          E d = newVar("fmtdigit", 8, true);
          // constrained without a query: a fresh variable, so always satisfiable
          addConstraint(*cur, inRangeByte(d, '1', '9'));
          if (cur->model.size() < g_vars.size()) cur->model.resize(g_vars.size(), 0);
          cur->model[d->var] = '1';
          out.push_back(Val(d));
        }
        break;
      }
      case 'c': {
        Val v = args.next(32, false);
        out.push_back(trunc_(v, 8));
        break;
      }
      case 'p': {
        Val v = args.next(64, false);
        if (v.conc()) { snprintf(buf, sizeof buf, v.c ? "0x%llx" : "(nil)", (unsigned long long)v.c); emit(buf); }
        else if (cur->exactFmt) {
          if (decide(binop(EQ, v, Val(0, 64)))) emit("(nil)");
          else { emit("0x"); digitsOf(out, v, 16, false); }
        } else emit("0x1");
        break;
      }
      case 's': {
        Val p = args.next(64, false);
        u64 a = (u64)concretize(p);
        size_t start = out.size();
        if (!a) { emit("(null)"); break; }
        std::vector<Val> tmp;
        for (u64 k = 0; prec < 0 || k < (u64)prec; k++) {
          Val b = loadScalar(Val(a + k, 64), 8);
          if (decide(binop(EQ, b, Val(0, 8)))) break;
          tmp.push_back(b);
        }
        (void)start;
        int pad = width > (int)tmp.size() ? width - (int)tmp.size() : 0;
        if (!left) for (int k = 0; k < pad; k++) out.push_back(Val(' ', 8));
        out.insert(out.end(), tmp.begin(), tmp.end());
        if (left) for (int k = 0; k < pad; k++) out.push_back(Val(' ', 8));
        break;
      }
      case 'f': case 'F': case 'g': case 'G': case 'e': case 'E': case 'a': case 'A': {
        Val v = args.next(bigL ? 80 : 64, bigL);
        if (v.conc()) { Str f2 = fs + "L" + cv; snprintf(buf, sizeof buf, f2.c_str(), fpAsL(v)); emit(buf); }
        else {
          unmodelled["digits of a formatted symbolic floating-point value approximated by one digit"]++;
          emit("1");
        }
        break;
      }
      case 'n': unsupported("%n in a format");
      default: unsupported(Str("format conversion %") + cv);
    }
    (void)zero;
  }
}

// Reads arguments out of a va_list (System V x86-64 layout)
static ArgSrc vaSrc(const Val& vaList) {
  u64 ap = (u64)concretize(vaList);
  return ArgSrc{[ap](unsigned bits, bool fp80) -> Val {
    u64 ov = (u64)concretize(loadScalar(Val(ap + 8, 64), 64));
    u64 gp = (u64)concretize(loadScalar(Val(ap, 64), 32));
    if (gp < 48) unsupported("va_list built outside the engine");
    if (fp80) ov = alignUp(ov, 16);
    Val v = loadScalar(Val(ov, 64), bits);
    storeScalar(Val(ap + 8, 64), Val(ov + (fp80 ? 16 : 8), 64));
    return v;
  }};
}

// ---- calls --------------------------------------------------------------------------------------------------------
static void pushFrame(const Function* F, std::vector<Val> args, int dst, const CallBase* cb) {
  State& s = *cur;
  if (s.st.size() > 3000) failPath("call depth exceeds 3000 frames (unbounded recursion)");
  KFunction* k = getKF(F);
  Frame f;
  f.kf = k;
  f.regs.resize(k->nregs);
  unsigned n = F->arg_size();
  for (unsigned i = 0; i < n; i++) {
    if (i < args.size()) {
      Val v = args[i];
      const Argument* A = F->getArg(i);
      if (cb && A->hasByValAttr()) {
        u64 sz = DL->getTypeAllocSize(A->getParamByValType());
        u64 a = allocStack(sz, "byval argument");
        f.allocas.push_back(a);
        copyMem(Val(a, 64), v, sz);
        v = Val(a, 64);
      }
      if (!v.agg && bitsOf(A->getType()) && bitsOf(A->getType()) != v.w) v = resize(v, bitsOf(A->getType()), false);
      f.regs[i] = v;
    } else f.regs[i] = constVal(Constant::getNullValue(F->getArg(i)->getType()));
  }
  if (F->isVarArg()) {
    // lay the variadic arguments out as an overflow area
    u64 sz = 0;
    std::vector<std::pair<u64, unsigned>> pos;
    for (unsigned i = n; i < args.size(); i++) {
      bool bv = cb && cb->isByValArgument(i);
      Type* t = cb ? cb->getArgOperand(i)->getType() : nullptr;
      if (bv) {
        u64 al = cb->getParamAlign(i) ? cb->getParamAlign(i)->value() : 8;
        if (al > 8) sz = alignUp(sz, al);
        pos.push_back({sz, i});
        sz += alignUp(DL->getTypeAllocSize(cb->getParamByValType(i)), 8);
      } else {
        if (t && (t->isX86_FP80Ty() || t->isIntegerTy(128))) sz = alignUp(sz, 16);
        pos.push_back({sz, i});
        sz += t && (t->isX86_FP80Ty() || t->isIntegerTy(128)) ? 16 : 8;
      }
    }
    u64 a = allocStack(sz + 16, "variadic arguments");
    f.allocas.push_back(a);
    f.varargs = a;
    for (auto& p : pos) {
      if (cb && cb->isByValArgument(p.second)) copyMem(Val(a + p.first, 64), args[p.second], DL->getTypeAllocSize(cb->getParamByValType(p.second)));
      else {
        Val v = args[p.second];
        if (v.agg) unsupported("aggregate variadic argument");
        if (v.w < 64) { v = zext(v, 64); }
        storeScalar(Val(a + p.first, 64), v);
      }
    }
  }
  f.callerDst = dst;
  s.st.push_back(std::move(f));
  if (k->fromRepo) funcsEntered.insert(F->getName().str());
}

static void setReg(int dst, Val v) { if (dst >= 0) cur->st.back().regs[dst] = std::move(v); }

static u64 typeinfoKind(u64 ti) {  // 0 class, 1 single inheritance, 2 virtual/multiple
  u64 vt = (u64)loadScalar(Val(ti, 64), 64).c;
  ObjP o = findObj(*cur, vt, true);
  if (!o) return 0;
  if (o->name.find("si_class_type_info") != Str::npos) return 1;
  if (o->name.find("vmi_class_type_info") != Str::npos) return 2;
  return 0;
}
static void findBases(u64 ti, u64 obj, u64 target, std::set<u64>& out, bool pub) {
  if (ti == target) { if (pub) out.insert(obj); return; }
  u64 k = typeinfoKind(ti);
  if (k == 1) findBases((u64)loadScalar(Val(ti + 16, 64), 64).c, obj, target, out, pub);
  if (k == 2) {
    u64 n = (u64)loadScalar(Val(ti + 20, 64), 32).c;
    for (u64 i = 0; i < n; i++) {
      u64 bt = (u64)loadScalar(Val(ti + 24 + 16 * i, 64), 64).c;
      s64 fl = (s64)loadScalar(Val(ti + 32 + 16 * i, 64), 64).c;
      s64 off = fl >> 8;
      if (fl & 1) {
        u64 vp = (u64)concretize(loadScalar(Val(obj, 64), 64));
        off = (s64)loadScalar(Val(vp + off, 64), 64).c;
      }
      findBases(bt, obj + off, target, out, pub && (fl & 2));
    }
  }
}
static u64 dynCast(u64 p, u64 dstTi) {
  u64 vp = (u64)concretize(loadScalar(Val(p, 64), 64));
  s64 top = (s64)concretize(loadScalar(Val(vp - 16, 64), 64));
  u64 ti = (u64)concretize(loadScalar(Val(vp - 8, 64), 64));
  std::set<u64> r;
  findBases(ti, p + top, dstTi, r, true);
  return r.size() == 1 ? *r.begin() : 0;
}

static void freeMem(const Val& p, const char* what, int kind) {
  u64 a = (u64)concretize(p);
  if (!a) return;
  auto it = cur->mem.find(a);
  if (it == cur->mem.end() || it->second->kind != Obj::HEAP) {
    ObjP o = findObj(*cur, a, true);
    failPath(Str(what) + " of a pointer that is not a live heap block" + (o ? " (inside " + o->name + ")" : Str(" (double free or wild pointer)")));
  }
  if (kind >= 0 && it->second->allocFn != kind) failPath(Str(what) + " does not match how the block was allocated");
  cur->mem.erase(it);
  cur->live--;
}

static const std::set<Str> noopFns = {"fprintf", "vfprintf", "printf", "vprintf", "puts", "fputs", "fputc", "putchar", "putc", "fwrite", "fflush", "perror", "__cxa_atexit", "setvbuf"};

// Handles a call to a function without a body; true when done.
static void gotoBB(Frame& f, const KInst& ki, unsigned i);
static bool builtin(const Function* F, std::vector<Val>& a, int dst, const CallBase* cb) {
  State& s = *cur;
  StringRef nm = F->getName();
  Type* rt = F->getReturnType();
  auto ret = [&](Val v) { setReg(dst, std::move(v)); return true; };
  auto u = [&](int i) { return (u64)concretize(a[i]); };
  if (nm.startswith("vf_")) {
    if (nm == "vf_symbolic") {
      u64 p = u(0), n = u(1);
      Str name = cstr(a[2]);
      InputRec r;
      r.name = name;
      if (n == 1 || n == 2 || n == 4 || n == 8 || n == 16) {
        E v = newVar(name, 8 * n, false);
        for (u64 i = 0; i < n; i++) r.bytes.push_back(mkExtract(v, 8 * i, 8));
        storeScalar(Val(p, 64), Val(v));
      } else {
        for (u64 i = 0; i < n; i++) {
          E v = newVar(name + "[" + std::to_string(i) + "]", 8, false);
          r.bytes.push_back(v);
          storeScalar(Val(p + i, 64), Val(v));
        }
      }
      if (s.model.size() < g_vars.size()) s.model.resize(g_vars.size(), 0);
      s.inputs.push_back(std::move(r));
      return true;
    }
    if (nm == "vf_assume") {
      E c = mkNot1(mkBin(EQ, a[0].node(), mkConst(0, a[0].w)));
      Model m;
      if (feasible(s, c, m) != 1) { nAssumeCut++; throw EndPath(); }
      s.model = m;
      addConstraint(s, c);
      return true;
    }
    if (nm == "vf_assert_impl") {
      nAsserts++;
      E c = mkNot1(mkBin(EQ, a[0].node(), mkConst(0, a[0].w)));
      if (c->op == CONST && c->c) return true;
      Str msg = cstr(a[1]);
      Model m;
      if (c->op != CONST) nAssertQueries++;
      if (feasible(s, mkNot1(c), m) == 1) {
        recordViolation(msg, m);
        if (feasible(s, c, m) != 1) throw EndPath();
        s.model = m;
        addConstraint(s, c);
      }
      return true;
    }
    if (nm == "vf_reach") { Str n2 = cstr(a[0]); s.reached.push_back(n2); reachedAll.insert(n2); return true; }
    if (nm == "vf_end_path") throw EndPath();
    if (nm == "vf_fail") failPath(cstr(a[0]));
    if (nm == "vf_heap_live") return ret(Val((u64)s.live, 64));
    if (nm == "vf_fork") return ret(Val(concretize(a[0]), a[0].w));
    if (nm == "vf_exact_format") { s.exactFmt = u(0); return true; }
    if (nm == "vf_native") return ret(Val(0, 32));
    if (nm == "vf_print") {
      fprintf(stderr, "vf_print %s %s\n", cstr(a[0]).c_str(), a[1].conc() ? std::to_string((u64)a[1].c).c_str() : nodeStr(a[1].n).c_str());
      return true;
    }
    if (nm == "vf_malloc_fails") {  // an arbitrary boolean under a budget is drawn by the caller; nothing to do here
      return ret(Val(0, 32));
    }
    if (nm == "vf_raw_alloc") return ret(Val(allocHeap(u(0), Str("heap block from ") + (s.st.size() ? locOf(s.st.back().kf->code[s.st.back().pc].I) : ""), u(1) != 0, (uint8_t)u(2)), 64));
    if (nm == "vf_raw_free") { freeMem(a[0], u(1) == 0 ? "free()" : "operator delete", (int)u(1)); return true; }
    if (nm == "vf_block_size") {
      u64 p = u(0);
      auto it = s.mem.find(p);
      if (it == s.mem.end() || it->second->kind != Obj::HEAP) failPath("realloc() of a pointer that is not a live heap block");
      return ret(Val(it->second->size, 64));
    }
    unsupported("unknown intrinsic " + nm.str());
  }
  if (nm == "memcpy" || nm == "memmove" || nm == "__memcpy_chk" || nm == "__memmove_chk") { u64 n = u(2); copyMem(a[0], a[1], n); return ret(a[0]); }
  if (nm == "mempcpy") { u64 n = u(2); copyMem(a[0], a[1], n); return ret(addPtr(a[0], n)); }
  if (nm == "memset") { u64 n = u(2); setMem(a[0], a[1], n); return ret(a[0]); }
  if (nm == "bzero") { u64 n = u(1); setMem(a[0], Val(0, 8), n); return true; }
  if (nm == "memcmp" || nm == "bcmp") {
    u64 n = u(2);
    u64 x = u(0), y = u(1);
    Val r(0, 32);
    if (n == 0) return ret(r);
    resolve(Val(x, 64), n, "read");
    resolve(Val(y, 64), n, "read");
    for (u64 i = n; i-- > 0;) {
      Val p = loadScalar(Val(x + i, 64), 8), q = loadScalar(Val(y + i, 64), 8);
      r = ite(binop(EQ, p, q), r, binop(SUB, zext(p, 32), zext(q, 32)));
    }
    return ret(r);
  }
  if (nm == "snprintf" || nm == "sprintf" || nm == "vsnprintf" || nm == "vsprintf") {
    bool hasN = nm.contains("snprintf") || nm == "vsnprintf", isV = nm.startswith("v");
    u64 n = hasN ? u(1) : ~0ull;
    unsigned fi = hasN ? 2 : 1;
    Str fmt = cstr(a[fi]);
    std::vector<Val> out;
    if (isV) {
      // the va_list must be restored if this instruction is executed again after a fork: work on the values first
      u64 ap = u(fi + 1);
      Val savedOv = loadScalar(Val(ap + 8, 64), 64);
      ArgSrc src = vaSrc(Val(ap, 64));
      struct Pos { u64 ov; };
      auto pos = std::make_shared<u64>((u64)concretize(savedOv));
      ArgSrc src2{[pos](unsigned bits, bool fp80) -> Val {
        if (fp80) *pos = alignUp(*pos, 16);
        Val v = loadScalar(Val(*pos, 64), bits);
        *pos += fp80 ? 16 : 8;
        return v;
      }};
      (void)src;
      if ((u64)concretize(loadScalar(Val(ap, 64), 32)) < 48) unsupported("va_list built outside the engine");
      formatOut(out, fmt, src2);
      storeScalar(Val(ap + 8, 64), Val(*pos, 64));
    } else {
      size_t k = fi + 1;
      ArgSrc src{[&](unsigned bits, bool) -> Val {
        if (k >= a.size()) failPath("printf-style call with too few arguments for its format");
        Val v = a[k++];
        if (v.w < bits) v = zext(v, bits);
        if (v.w > bits) v = trunc_(v, bits);
        return v;
      }};
      formatOut(out, fmt, src);
    }
    u64 dstp = n ? u(0) : 0;
    if (n) {
      u64 wr = std::min<u64>(out.size(), n - 1);
      resolve(Val(dstp, 64), wr + 1, "write");
      for (u64 i = 0; i < wr; i++) storeScalar(Val(dstp + i, 64), out[i]);
      storeScalar(Val(dstp + wr, 64), Val(0, 8));
    }
    return ret(Val(out.size(), 32));
  }
  if (noopFns.count(nm.str())) { if (dst >= 0) ret(Val(0, bitsOf(rt))); return true; }
  if (nm == "__dynamic_cast") {
    u64 p = u(0), d = u(2);
    return ret(Val(p ? dynCast(p, d) : 0, 64));
  }
  if (nm == "__cxa_guard_acquire") {
    Val g = loadScalar(a[0], 8);
    return ret(Val(concretize(g) ? 0 : 1, 32));
  }
  if (nm == "__cxa_guard_release") { storeScalar(a[0], Val(1, 8)); return true; }
  if (nm == "__cxa_guard_abort") return true;
  // unmodelled: an arbitrary result
  unmodelled["call of external " + nm.str()]++;
  if (dst >= 0) {
    unsigned w = bitsOf(rt);
    if (!w) unsupported("external function " + nm.str() + " returning an aggregate");
    setReg(dst, Val(newVar("result of " + nm.str(), w, true)));
    if (s.model.size() < g_vars.size()) s.model.resize(g_vars.size(), 0);
  }
  return true;
}

static Val popcnt(const Val& a) {
  Val r(0, a.w);
  for (unsigned i = 0; i < a.w; i++) r = binop(ADD, r, zext(Val(mkExtract(a.node(), i, 1)), a.w));
  return r;
}
static bool intrinsic(const IntrinsicInst* II, KInst& ki, Frame& f) {
  auto op = [&](int i) -> Val& { return reg(f, ki.ops[i]); };
  int dst = ki.dst;
  unsigned w = bitsOf(II->getType());
  switch (II->getIntrinsicID()) {
    case Intrinsic::dbg_declare: case Intrinsic::dbg_value: case Intrinsic::dbg_label: case Intrinsic::dbg_assign:
    case Intrinsic::lifetime_start: case Intrinsic::lifetime_end: case Intrinsic::assume: case Intrinsic::experimental_noalias_scope_decl:
    case Intrinsic::invariant_start: case Intrinsic::invariant_end: case Intrinsic::prefetch: case Intrinsic::stackrestore: case Intrinsic::vaend:
    case Intrinsic::donothing: case Intrinsic::sideeffect:
      if (dst >= 0) setReg(dst, Val(0, w ? w : 64));
      return true;
    case Intrinsic::stacksave: setReg(dst, Val(0, 64)); return true;
    case Intrinsic::expect: case Intrinsic::expect_with_probability: case Intrinsic::launder_invariant_group: case Intrinsic::strip_invariant_group:
    case Intrinsic::threadlocal_address: case Intrinsic::ptr_annotation: case Intrinsic::ssa_copy:
      setReg(dst, op(0)); return true;
    case Intrinsic::memcpy: case Intrinsic::memmove: case Intrinsic::memcpy_inline: { u64 n = (u64)concretize(op(2)); copyMem(op(0), op(1), n); return true; }
    case Intrinsic::memset: case Intrinsic::memset_inline: { u64 n = (u64)concretize(op(2)); setMem(op(0), op(1), n); return true; }
    case Intrinsic::is_constant: setReg(dst, Val(0, 1)); return true;
    case Intrinsic::objectsize: setReg(dst, Val(op(1).c & 1 ? 0 : ~(u128)0, w)); return true;
    case Intrinsic::trap: case Intrinsic::debugtrap: case Intrinsic::ubsantrap: failPath("trap instruction reached");
    case Intrinsic::vastart: {
      u64 ap = (u64)concretize(op(0));
      storeScalar(Val(ap, 64), Val(48, 32));
      storeScalar(Val(ap + 4, 64), Val(176, 32));
      storeScalar(Val(ap + 8, 64), Val(f.varargs, 64));
      storeScalar(Val(ap + 16, 64), Val(0, 64));
      return true;
    }
    case Intrinsic::vacopy: copyMem(op(0), op(1), 24); return true;
    case Intrinsic::eh_typeid_for: setReg(dst, Val(0, 32)); return true;
    case Intrinsic::umax: setReg(dst, ite(binop(ULT, op(0), op(1)), op(1), op(0))); return true;
    case Intrinsic::umin: setReg(dst, ite(binop(ULT, op(0), op(1)), op(0), op(1))); return true;
    case Intrinsic::smax: setReg(dst, ite(binop(SLT, op(0), op(1)), op(1), op(0))); return true;
    case Intrinsic::smin: setReg(dst, ite(binop(SLT, op(0), op(1)), op(0), op(1))); return true;
    case Intrinsic::abs: setReg(dst, ite(binop(SLT, op(0), Val(0, w)), binop(SUB, Val(0, w), op(0)), op(0))); return true;
    case Intrinsic::ctpop: setReg(dst, popcnt(op(0))); return true;
    case Intrinsic::ctlz: {
      Val r(w, w), a = op(0);
      for (unsigned i = 0; i < w; i++) r = ite(Val(mkExtract(a.node(), i, 1)), Val(w - 1 - i, w), r);
      setReg(dst, r); return true;
    }
    case Intrinsic::cttz: {
      Val r(w, w), a = op(0);
      for (unsigned i = w; i-- > 0;) r = ite(Val(mkExtract(a.node(), i, 1)), Val(i, w), r);
      setReg(dst, r); return true;
    }
    case Intrinsic::bswap: {
      Val a = op(0);
      E r = nullptr;
      for (unsigned i = 0; i < w / 8; i++) { E b = mkExtract(a.node(), 8 * i, 8); r = r ? mkConcat(r, b) : b; }
      setReg(dst, Val(r)); return true;
    }
    case Intrinsic::fshl: case Intrinsic::fshr: {
      bool l = II->getIntrinsicID() == Intrinsic::fshl;
      Val a = op(0), b = op(1), c = op(2);
      if (!c.conc()) { c = Val(concretize(c), w); }
      unsigned k = (unsigned)(c.c % w);
      if (k == 0) { setReg(dst, l ? a : b); return true; }
      if (!l) k = w - k;
      setReg(dst, Val(mkConcat(mkExtract(a.node(), 0, w - k), mkExtract(b.node(), w - k, k)))); return true;
    }
    case Intrinsic::uadd_with_overflow: { Val r = binop(ADD, op(0), op(1)); Val o = binop(ULT, r, op(0)); setReg(dst, mkAgg({r, o})); return true; }
    case Intrinsic::usub_with_overflow: { Val r = binop(SUB, op(0), op(1)); Val o = binop(ULT, op(0), op(1)); setReg(dst, mkAgg({r, o})); return true; }
    case Intrinsic::sadd_with_overflow: case Intrinsic::ssub_with_overflow: {
      unsigned ww = op(0).w;
      bool add = II->getIntrinsicID() == Intrinsic::sadd_with_overflow;
      if (ww > 64) unsupported("wide overflow intrinsic");
      Val x = sext(op(0), ww + 1), y = sext(op(1), ww + 1);
      Val r = binop(add ? ADD : SUB, x, y), t = trunc_(r, ww);
      Val o = binop(EQ, sext(t, ww + 1), r);
      setReg(dst, mkAgg({t, binop(XOR, o, Val(1, 1))})); return true;
    }
    case Intrinsic::umul_with_overflow: case Intrinsic::smul_with_overflow: {
      unsigned ww = op(0).w;
      bool sg = II->getIntrinsicID() == Intrinsic::smul_with_overflow;
      if (ww > 64) unsupported("wide overflow intrinsic");
      Val x = resize(op(0), 2 * ww, sg), y = resize(op(1), 2 * ww, sg);
      Val r = binop(MUL, x, y), t = trunc_(r, ww);
      Val o = binop(EQ, resize(t, 2 * ww, sg), r);
      setReg(dst, mkAgg({t, binop(XOR, o, Val(1, 1))})); return true;
    }
    case Intrinsic::uadd_sat: { Val r = binop(ADD, op(0), op(1)); setReg(dst, ite(binop(ULT, r, op(0)), Val(maskw(w), w), r)); return true; }
    case Intrinsic::usub_sat: { setReg(dst, ite(binop(ULT, op(0), op(1)), Val(0, w), binop(SUB, op(0), op(1)))); return true; }
    case Intrinsic::fabs: {
      Val a = op(0);
      setReg(dst, a.conc() ? Val(a.c & (maskw(w) >> 1), w) : Val(mkConcat(mkConst(0, 1), mkExtract(a.n, 0, w - 1)))); return true;
    }
    case Intrinsic::ceil: if (op(0).conc()) { setReg(dst, fpFromL(ceill(fpAsL(op(0))), w)); return true; } setReg(dst, opaque("ceil", w)); return true;
    case Intrinsic::floor: if (op(0).conc()) { setReg(dst, fpFromL(floorl(fpAsL(op(0))), w)); return true; } setReg(dst, opaque("floor", w)); return true;
    case Intrinsic::fmuladd: case Intrinsic::fma:
      setReg(dst, fparith(Instruction::FAdd, fparith(Instruction::FMul, op(0), op(1)), op(2))); return true;
    default: break;
  }
  unsupported("intrinsic " + II->getCalledFunction()->getName().str());
}

static void doCall(KInst& ki, Frame& f) {
  auto* cb = cast<CallBase>(ki.I);
  if (cb->isInlineAsm()) { if (ki.dst >= 0) unsupported("inline assembly with a result"); f.pc++; return; }
  if (auto* II = dyn_cast<IntrinsicInst>(cb)) {
    intrinsic(II, ki, f);
    cur->st.back().pc++;
    return;
  }
  unsigned na = cb->arg_size();
  std::vector<Val> args;
  args.reserve(na);
  for (unsigned i = 0; i < na; i++) args.push_back(reg(f, ki.ops[i]));
  const Function* F = dyn_cast<Function>(cb->getCalledOperand()->stripPointerCasts());
  if (!F) if (auto* ga = dyn_cast<GlobalAlias>(cb->getCalledOperand()->stripPointerCasts())) F = dyn_cast<Function>(ga->getAliasee()->stripPointerCasts());
  if (!F) {
    Val& fp = reg(f, ki.ops[cb->getCalledOperandUse().getOperandNo()]);
    u64 a = (u64)concretize(fp);
    auto it = addrFn.find(a);
    if (it == addrFn.end()) failPath(a == 0 ? "call through a null function pointer" : "call through an invalid function pointer (" + describeAddr(a) + ")");
    F = it->second;
  }
  if (opt.trace) fprintf(stderr, "%*scall %s\n", (int)cur->st.size(), "", F->getName().str().c_str());
  bool isInvoke = isa<InvokeInst>(cb);
  if (F->isDeclaration()) {
    builtin(F, args, ki.dst, cb);
    Frame& g = cur->st.back();
    if (isInvoke) gotoBB(g, ki, 0);
    else g.pc++;
    return;
  }
  pushFrame(F, std::move(args), ki.dst, cb);
}

static void gotoBB(Frame& f, const KInst& ki, unsigned i) {
  f.prevbb = f.bb;
  f.bb = ki.succBB[i];
  f.pc = ki.succ[i];
  // evaluate the phi nodes of the target in parallel
  KFunction* k = f.kf;
  if (!isa<PHINode>(k->code[f.pc].I)) return;
  std::vector<std::pair<int, Val>> up;
  while (auto* phi = dyn_cast<PHINode>(k->code[f.pc].I)) {
    KInst& p = k->code[f.pc];
    unsigned n = phi->getNumIncomingValues(), j = 0;
    for (; j < n; j++) if (k->bbIdx.lookup(phi->getIncomingBlock(j)) == f.prevbb) break;
    up.push_back({p.dst, reg(f, p.ops[j])});
    f.pc++;
  }
  for (auto& x : up) f.regs[x.first] = std::move(x.second);
}

static void step() {
  State& s = *cur;
  Frame& f = s.st.back();
  KInst& ki = f.kf->code[f.pc];
  const Instruction* I = ki.I;
  auto op = [&](int i) -> Val& { return reg(f, ki.ops[i]); };
  auto set = [&](Val v) { f.regs[ki.dst] = std::move(v); f.pc++; };
  unsigned opc = I->getOpcode();
  switch (opc) {
    case Instruction::Ret: {
      bool has = I->getNumOperands() > 0;
      Val v;
      if (has) v = op(0);
      for (u64 a : f.allocas) s.mem.erase(a);
      int dst = f.callerDst;
      s.st.pop_back();
      if (s.st.empty()) throw EndPath();
      Frame& g = s.st.back();
      KInst& ci = g.kf->code[g.pc];
      if (dst >= 0 && has) {
        unsigned w = bitsOf(ci.I->getType());
        if (!v.agg && w && v.w != w) v = resize(v, w, false);
        g.regs[dst] = std::move(v);
      }
      if (isa<InvokeInst>(ci.I)) gotoBB(g, ci, 0);
      else g.pc++;
      return;
    }
    case Instruction::Br: {
      auto* br = cast<BranchInst>(I);
      if (br->isUnconditional()) { gotoBB(f, ki, 0); return; }
      bool c = decide(op(0));
      gotoBB(cur->st.back(), ki, c ? 0 : 1);
      return;
    }
    case Instruction::Switch: {
      auto* sw = cast<SwitchInst>(I);
      Val v = op(0);
      unsigned idx = 0;  // successor 0 is the default
      for (auto& c : sw->cases()) {
        Val cv(apToU(c.getCaseValue()->getValue()), v.w);
        if (decide(binop(EQ, v, cv))) { idx = c.getSuccessorIndex(); break; }
      }
      gotoBB(cur->st.back(), ki, idx);
      return;
    }
    case Instruction::Unreachable: failPath("unreachable instruction executed (undefined behaviour)");
    case Instruction::Resume: unsupported("resume");
    case Instruction::Call: case Instruction::Invoke: doCall(ki, f); return;
    case Instruction::Alloca: {
      auto* ai = cast<AllocaInst>(I);
      u64 n = (u64)concretize(op(0));
      u64 sz = DL->getTypeAllocSize(ai->getAllocatedType()) * n;
      u64 a = allocStack(sz, ai->hasName() ? ai->getName().str() : Str("local of ") + f.kf->F->getName().str());
      f.allocas.push_back(a);
      set(Val(a, 64));
      return;
    }
    case Instruction::Load: { Val v = loadType(op(0), I->getType()); cur->st.back().regs[ki.dst] = v; cur->st.back().pc++; return; }
    case Instruction::Store: storeType(op(1), op(0), I->getOperand(0)->getType()); f.pc++; return;
    case Instruction::GetElementPtr: {
      auto* g = cast<GetElementPtrInst>(I);
      if (g->getType()->isVectorTy()) unsupported("vector gep");
      Val p = op(0);
      unsigned k = 1;
      for (auto it = gep_type_begin(g), e = gep_type_end(g); it != e; ++it, ++k) {
        Val& idx = op(k);
        if (auto* st = it.getStructTypeOrNull()) { p = addPtr(p, DL->getStructLayout(st)->getElementOffset((unsigned)idx.c)); continue; }
        u64 es = DL->getTypeAllocSize(it.getIndexedType());
        if (idx.conc()) p = addPtr(p, (u64)((s64)sextw(idx.c, idx.w) * (s64)es));
        else {
          E i64 = resize(idx, 64, true).node();
          p = Val(mkBin(ADD, p.node(), mkBin(MUL, i64, mkConst(es, 64))));
        }
      }
      set(p);
      return;
    }
    case Instruction::PHI: unsupported("phi outside block entry");
    case Instruction::Select: {
      Val c = op(0);
      if (c.agg) {
        std::vector<Val> v;
        for (size_t i = 0; i < c.agg->size(); i++) v.push_back(ite((*c.agg)[i], (*op(1).agg)[i], (*op(2).agg)[i]));
        set(mkAgg(v));
      } else set(ite(c, op(1), op(2)));
      return;
    }
    case Instruction::ICmp: {
      auto p = cast<ICmpInst>(I)->getPredicate();
      Val &a = op(0), &b = op(1);
      if (a.agg) { std::vector<Val> v; for (size_t i = 0; i < a.agg->size(); i++) v.push_back(icmp(p, (*a.agg)[i], (*b.agg)[i])); set(mkAgg(v)); }
      else set(icmp(p, a, b));
      return;
    }
    case Instruction::FCmp: {
      auto p = cast<FCmpInst>(I)->getPredicate();
      if (op(0).agg) { std::vector<Val> v; for (size_t i = 0; i < op(0).agg->size(); i++) v.push_back(fcmp(p, (*op(0).agg)[i], (*op(1).agg)[i])); set(mkAgg(v)); }
      else set(fcmp(p, op(0), op(1)));
      return;
    }
    case Instruction::FNeg: {
      Val a = op(0);
      if (a.agg) unsupported("vector fneg");
      set(binop(XOR, a, Val((u128)1 << (a.w - 1), a.w)));
      return;
    }
    case Instruction::FAdd: case Instruction::FSub: case Instruction::FMul: case Instruction::FDiv: case Instruction::FRem:
      if (op(0).agg) unsupported("vector floating point");
      set(fparith(opc, op(0), op(1)));
      return;
    case Instruction::Freeze: set(op(0)); return;
    case Instruction::Trunc: case Instruction::ZExt: case Instruction::SExt: {
      unsigned w = bitsOf(I->getType()->getScalarType());
      bool sg = opc == Instruction::SExt;
      if (op(0).agg) { set(mapVec(op(0), [&](const Val& x) { return resize(x, w, sg); })); return; }
      if (w > 128) unsupported("integer wider than 128 bits");
      set(resize(op(0), w, sg));
      return;
    }
    case Instruction::PtrToInt: case Instruction::IntToPtr: set(resize(op(0), bitsOf(I->getType()), false)); return;
    case Instruction::BitCast: {
      Type *st = I->getOperand(0)->getType(), *dt = I->getType();
      if (!st->isVectorTy() && !dt->isVectorTy()) { set(op(0)); return; }
      // through a concatenation, low element first
      E all = nullptr;
      if (op(0).agg) { for (auto& x : *op(0).agg) all = all ? mkConcat(x.node(), all) : x.node(); }
      else all = op(0).node();
      if (auto* vt = dyn_cast<FixedVectorType>(dt)) {
        unsigned b = bitsOf(vt->getElementType());
        std::vector<Val> v;
        for (unsigned i = 0; i < vt->getNumElements(); i++) v.push_back(Val(mkExtract(all, i * b, b)));
        set(mkAgg(v));
      } else set(Val(all));
      return;
    }
    case Instruction::FPExt: case Instruction::FPTrunc: {
      unsigned w = bitsOf(I->getType());
      if (op(0).agg) unsupported("vector fp conversion");
      if (op(0).conc()) set(fpFromL(fpAsL(op(0)), w)); else set(opaque("floating-point conversion", w));
      return;
    }
    case Instruction::SIToFP: case Instruction::UIToFP: {
      unsigned w = bitsOf(I->getType());
      Val a = op(0);
      if (a.agg) unsupported("vector fp conversion");
      if (!a.conc()) { set(opaque("integer to floating point", w)); return; }
      if (opc == Instruction::SIToFP) {
        s128 x = sextw(a.c, a.w);
        set(w == 32 ? Val(fromF((float)x), 32) : w == 64 ? Val(fromD((double)x), 64) : Val(fromL((long double)x), 80));
      } else set(w == 32 ? Val(fromF((float)a.c), 32) : w == 64 ? Val(fromD((double)a.c), 64) : Val(fromL((long double)a.c), 80));
      return;
    }
    case Instruction::FPToSI: case Instruction::FPToUI: {
      unsigned w = bitsOf(I->getType());
      Val a = op(0);
      if (!a.conc()) { set(opaque("floating point to integer", w)); return; }
      long double x = fpAsL(a);
      set(opc == Instruction::FPToSI ? Val((u128)(s128)x, w) : Val((u128)x, w));
      return;
    }
    case Instruction::ExtractValue: {
      Val v = op(0);
      for (unsigned i : cast<ExtractValueInst>(I)->indices()) { Val t = (*v.agg)[i]; v = t; }
      set(v);
      return;
    }
    case Instruction::InsertValue: {
      std::function<Val(const Val&, ArrayRef<unsigned>, const Val&)> ins = [&](const Val& a, ArrayRef<unsigned> ix, const Val& x) -> Val {
        if (ix.empty()) return x;
        std::vector<Val> v = *a.agg;
        v[ix[0]] = ins(v[ix[0]], ix.drop_front(), x);
        return mkAgg(std::move(v));
      };
      set(ins(op(0), cast<InsertValueInst>(I)->getIndices(), op(1)));
      return;
    }
    case Instruction::ExtractElement: { u64 i = (u64)concretize(op(1)); set(Val((*op(0).agg)[i])); return; }
    case Instruction::InsertElement: {
      u64 i = (u64)concretize(op(2));
      std::vector<Val> v = *op(0).agg;
      v[i] = op(1);
      set(mkAgg(std::move(v)));
      return;
    }
    case Instruction::ShuffleVector: {
      auto* sv = cast<ShuffleVectorInst>(I);
      std::vector<Val> v;
      size_t n = op(0).agg->size();
      for (int m : sv->getShuffleMask()) v.push_back(m < 0 ? Val(0, (*op(0).agg)[0].w) : (size_t)m < n ? (*op(0).agg)[m] : (*op(1).agg)[m - n]);
      set(mkAgg(std::move(v)));
      return;
    }
    case Instruction::AtomicRMW: {
      auto* rm = cast<AtomicRMWInst>(I);
      Val old = loadType(op(0), rm->getType());
      Val nv, x = op(1);
      switch (rm->getOperation()) {
        case AtomicRMWInst::Add: nv = binop(ADD, old, x); break;
        case AtomicRMWInst::Sub: nv = binop(SUB, old, x); break;
        case AtomicRMWInst::Xchg: nv = x; break;
        case AtomicRMWInst::And: nv = binop(AND, old, x); break;
        case AtomicRMWInst::Or: nv = binop(OR, old, x); break;
        default: unsupported("atomicrmw");
      }
      storeType(op(0), nv, rm->getType());
      set(old);
      return;
    }
    case Instruction::AtomicCmpXchg: {
      auto* cx = cast<AtomicCmpXchgInst>(I);
      Val old = loadType(op(0), cx->getNewValOperand()->getType());
      Val eq = binop(EQ, old, op(1));
      bool b = decide(eq);
      if (b) storeType(op(0), op(2), cx->getNewValOperand()->getType());
      set(mkAgg({old, Val(b, 1)}));
      return;
    }
    case Instruction::Fence: f.pc++; return;
    case Instruction::VAArg: unsupported("va_arg instruction");
    case Instruction::LandingPad: unsupported("landing pad");
    default: break;
  }
  static const std::map<unsigned, Op> bm = {{Instruction::Add, ADD}, {Instruction::Sub, SUB}, {Instruction::Mul, MUL}, {Instruction::UDiv, UDIV}, {Instruction::SDiv, SDIV}, {Instruction::URem, UREM}, {Instruction::SRem, SREM}, {Instruction::And, AND}, {Instruction::Or, OR}, {Instruction::Xor, XOR}, {Instruction::Shl, SHL}, {Instruction::LShr, LSHR}, {Instruction::AShr, ASHR}};
  auto it = bm.find(opc);
  if (it == bm.end()) unsupported(Str("instruction ") + I->getOpcodeName());
  Op o = it->second;
  if (o == UDIV || o == SDIV || o == UREM || o == SREM) {
    if (op(1).agg) unsupported("vector division");
    if (decide(binop(EQ, op(1), Val(0, op(1).w)))) failPath("division by zero");
  }
  if (op(0).agg) {
    std::vector<Val> v;
    for (size_t i = 0; i < op(0).agg->size(); i++) v.push_back(binop(o, (*op(0).agg)[i], (*op(1).agg)[i]));
    set(mkAgg(v));
  } else set(binop(o, op(0), op(1)));
}

// ---- set-up -------------------------------------------------------------------------------------------------------
static void layoutGlobals(State& s) {
  u64 a = 0x1000;
  for (auto& F : *M) {
    if (F.isDeclaration() && F.hasExternalWeakLinkage()) { fnAddr[&F] = 0; continue; }
    fnAddr[&F] = a;
    addrFn[a] = &F;
    a += 16;
  }
  a = alignUp(a + 0x100000, 0x100000);
  for (auto& g : M->globals()) {
    if (g.isDeclaration() && g.hasExternalWeakLinkage()) { gAddr[&g] = 0; continue; }
    u64 sz = g.getValueType()->isSized() ? DL->getTypeAllocSize(g.getValueType()).getFixedValue() : 0;
    if (g.isDeclaration()) sz = std::max<u64>(sz, 512);
    u64 al = std::max<u64>(16, g.getAlign() ? g.getAlign()->value() : 16);
    a = alignUp(a, al);
    gAddr[&g] = a;
    a += sz + 64;
  }
  for (auto& g : M->globals()) {
    u64 ad = gAddr[&g];
    if (!ad) continue;
    u64 sz = g.getValueType()->isSized() ? DL->getTypeAllocSize(g.getValueType()).getFixedValue() : 0;
    if (g.isDeclaration()) sz = std::max<u64>(sz, 512);
    auto o = mkObj(ad, sz, Obj::GLOBAL, g.getName().str(), false);
    if (g.hasInitializer()) initConst(o.get(), 0, g.getInitializer());
    if (g.isConstant() || g.isDeclaration()) { o->ro = g.isConstant(); (o->ro ? constMem : s.mem)[ad] = o; }
    else s.mem[ad] = o;
  }
}

static Str jsonEsc(const Str& s) {
  Str r;
  char b[8];
  for (unsigned char c : s) {
    if (c == '"' || c == '\\') { r += '\\'; r += c; }
    else if (c < 32 || c > 126) { snprintf(b, sizeof b, "\\u%04x", c); r += b; }
    else r += c;
  }
  return r;
}

static Str sampleOf(State& s) {
  Str r;
  for (auto& i : s.inputs) {
    u128 v = 0;
    bool small = i.bytes.size() <= 16;
    for (size_t k = i.bytes.size(); k-- > 0;) if (small) v = (v << 8) | evalNode(i.bytes[k], s.model);
    char b[64];
    if (small) snprintf(b, sizeof b, "0x%llx", (unsigned long long)v); else snprintf(b, sizeof b, "<%zu bytes>", i.bytes.size());
    if (!r.empty()) r += " ";
    r += i.name + "=" + b;
    if (r.size() > 300) { r += " ..."; break; }
  }
  return r;
}

static bool runPath(std::unique_ptr<State> st) {
  cur = st.get();
  bool done = true;
  try {
    for (;;) {
      if (++cur->steps > opt.maxSteps) failPath("HANG: more than " + std::to_string(opt.maxSteps) + " instructions on one path");
      nSteps++;
      if ((nSteps & 0xffff) == 0 && elapsed() > opt.timeLimit) { incomplete["time limit"]++; done = false; break; }
      step();
    }
  } catch (EndPath&) {
  } catch (Unsupported& u) {
    incomplete["unsupported: " + u.what + " at " + (cur->st.empty() ? Str("?") : stackStr())]++;
  }
  nPaths++;
  if (samplePaths.size() < 5 && !cur->inputs.empty()) samplePaths.push_back(sampleOf(*cur));
  return done;
}

static int realMain(int argc, char** argv) {
  std::vector<Str> files;
  for (int i = 1; i < argc; i++) {
    Str a = argv[i];
    auto val = [&] { return Str(argv[++i]); };
    if (a == "-o") opt.out = val();
    else if (a == "--max-steps") opt.maxSteps = std::stoull(val());
    else if (a == "--max-paths") opt.maxPaths = std::stoull(val());
    else if (a == "--time") opt.timeLimit = std::stod(val());
    else if (a == "--solver-ms") g_solverTimeoutMs = std::stoul(val());
    else if (a == "--repo") opt.repo = val();
    else if (a == "--trace") opt.trace = true;
    else if (a == "-v") opt.verbose = true;
    else files.push_back(a);
  }
  tStart = std::chrono::steady_clock::now();
  std::unique_ptr<Module> mod;
  for (auto& fn : files) {
    SMDiagnostic err;
    auto m = parseIRFile(fn, err, ctx);
    if (!m) { err.print("vfsym", errs()); return 3; }
    if (!mod) mod = std::move(m);
    else if (Linker::linkModules(*mod, std::move(m))) { errs() << "link failed: " << fn << "\n"; return 3; }
  }
  M = mod.get();
  // keep only what the entry point and the constructors can reach, then put it in SSA form
  {
    LoopAnalysisManager LAM; FunctionAnalysisManager FAM; CGSCCAnalysisManager CAM; ModuleAnalysisManager MAM;
    PassBuilder PB;
    PB.registerModuleAnalyses(MAM); PB.registerCGSCCAnalyses(CAM); PB.registerFunctionAnalyses(FAM); PB.registerLoopAnalyses(LAM);
    PB.crossRegisterProxies(LAM, FAM, CAM, MAM);
    internalizeModule(*M, [](const GlobalValue& g) { return g.getName() == opt.entry || g.getName().startswith("llvm."); });
    for (auto& F : *M) { F.removeFnAttr(Attribute::OptimizeNone); }
    ModulePassManager MPM;
    if (auto e = PB.parsePassPipeline(MPM, "globaldce,function(sroa,early-cse,simplifycfg,instsimplify),globaldce")) { errs() << "bad pipeline\n"; return 3; }
    MPM.run(*M, MAM);
  }
  DL = &M->getDataLayout();
  auto s0 = std::make_unique<State>();
  s0->heapPtr = 0x100000000ull;
  s0->stackPtr = 0x700000000000ull;
  cur = s0.get();
  try { layoutGlobals(*s0); } catch (Unsupported& u) { errs() << "vfsym: " << u.what << "\n"; return 3; }
  const Function* entry = M->getFunction(opt.entry);
  if (!entry || entry->isDeclaration()) { errs() << "vfsym: no " << opt.entry << "\n"; return 3; }
  // constructors, by priority
  std::vector<std::pair<u64, const Function*>> ctors;
  if (auto* gv = M->getGlobalVariable("llvm.global_ctors"))
    if (auto* ca = dyn_cast<ConstantArray>(gv->getInitializer()))
      for (auto& o : ca->operands())
        if (auto* cs = dyn_cast<ConstantStruct>(o))
          if (auto* fn = dyn_cast<Function>(cs->getOperand(1)->stripPointerCasts()))
            ctors.push_back({cast<ConstantInt>(cs->getOperand(0))->getZExtValue(), fn});
  std::stable_sort(ctors.begin(), ctors.end(), [](auto& x, auto& y) { return x.first < y.first; });
  try {
    for (auto& c : ctors) {
      pushFrame(c.second, {}, -1, nullptr);
      try {
        for (;;) { if (++s0->steps > opt.maxSteps) { errs() << "constructor does not end\n"; return 3; } step(); }
      } catch (EndPath&) {}
      s0->st.clear();
      if (!work.empty() || !violations.empty()) {
        errs() << "vfsym: constructor " << c.second->getName() << " forked or failed" << (violations.empty() ? "" : ": " + violations[0].msg + " " + violations[0].where) << "\n";
        return 3;
      }
    }
  } catch (Unsupported& u) { errs() << "vfsym: in a constructor: " << u.what << " at " << stackStr() << "\n"; return 3; }
  pushFrame(entry, {}, -1, nullptr);
  s0->steps = 0;
  work.push_back(std::move(s0));
  while (!work.empty()) {
    auto st = std::move(work.back());
    work.pop_back();
    if (!runPath(std::move(st))) break;
    if (violations.size() >= opt.maxViol) { incomplete["stopped after violations"]++; break; }
    if (nPaths >= opt.maxPaths) { incomplete["path limit"]++; break; }
    if (elapsed() > opt.timeLimit) { if (!work.empty()) incomplete["time limit"]++; break; }
    if (opt.verbose && nPaths % 1000 == 0) fprintf(stderr, "[%.1fs] paths %llu pending %zu steps %llu queries %llu solver %.1fs nodes %llu\n", elapsed(), (unsigned long long)nPaths, work.size(), (unsigned long long)nSteps, (unsigned long long)g_ss.queries, g_ss.seconds, (unsigned long long)nodeCount());
  }
  std::ostringstream o;
  o << "{\n \"paths\": " << nPaths << ", \"pending\": " << work.size() << ", \"steps\": " << nSteps << ", \"forks\": " << nForks
    << ", \"asserts_checked\": " << nAsserts << ", \"assert_queries\": " << nAssertQueries << ", \"assume_cut\": " << nAssumeCut
    << ",\n \"solver\": {\"queries\": " << g_ss.queries << ", \"sat\": " << g_ss.sat << ", \"unsat\": " << g_ss.unsat << ", \"unknown\": " << g_ss.unknown
    << ", \"cache_hits\": " << g_ss.cacheHits << ", \"sat_by_evaluation\": " << g_ss.guessed << ", \"seconds\": " << g_ss.seconds << ", \"max_seconds\": " << g_ss.maxSeconds << "},\n \"wall\": " << elapsed()
    << ",\n \"reached\": [";
  bool first = true;
  for (auto& r : reachedAll) { o << (first ? "" : ", ") << "\"" << jsonEsc(r) << "\""; first = false; }
  o << "],\n \"incomplete\": {";
  first = true;
  for (auto& r : incomplete) { o << (first ? "" : ", ") << "\"" << jsonEsc(r.first) << "\": " << r.second; first = false; }
  o << "},\n \"unmodelled\": {";
  first = true;
  for (auto& r : unmodelled) { o << (first ? "" : ", ") << "\"" << jsonEsc(r.first) << "\": " << r.second; first = false; }
  o << "},\n \"functions\": [";
  first = true;
  for (auto& r : funcsEntered) { o << (first ? "" : ", ") << "\"" << jsonEsc(r) << "\""; first = false; }
  o << "],\n \"samples\": [";
  first = true;
  for (auto& r : samplePaths) { o << (first ? "" : ", ") << "\"" << jsonEsc(r) << "\""; first = false; }
  o << "],\n \"violations\": [";
  first = true;
  for (auto& v : violations) {
    o << (first ? "\n" : ",\n") << "  {\"msg\": \"" << jsonEsc(v.msg) << "\", \"where\": \"" << jsonEsc(v.where) << "\", \"inputs\": [";
    bool f2 = true;
    for (auto& i : v.inputs) { o << (f2 ? "" : ", ") << "[\"" << jsonEsc(i.first) << "\", \"" << i.second << "\"]"; f2 = false; }
    o << "]}";
    first = false;
  }
  o << "]\n}\n";
  if (opt.out.empty()) std::cout << o.str();
  else { std::ofstream f(opt.out); f << o.str(); }
  fflush(nullptr);
  _exit(violations.empty() ? (incomplete.empty() && work.empty() ? 0 : 2) : 1);
}

struct Args { int c; char** v; int r; };
static void* th(void* p) { auto* a = (Args*)p; a->r = realMain(a->c, a->v); return nullptr; }
int main(int argc, char** argv) {
  pthread_attr_t at;
  pthread_attr_init(&at);
  pthread_attr_setstacksize(&at, 1ull << 30);
  Args a{argc, argv, 0};
  pthread_t t;
  if (pthread_create(&t, &at, th, &a)) return 3;
  pthread_join(t, nullptr);
  _exit(a.r);
}
