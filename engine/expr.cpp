#include "expr.h"
#include <algorithm>
#include <chrono>
#include <cstdio>
#include <cstdlib>
#include <deque>
#include <set>
#include <unordered_set>
#include <z3.h>

std::vector<VarInfo> g_vars;
SolverStats g_ss;
unsigned g_solverTimeoutMs = 60000;

static std::deque<Node> arena;
struct HEq {
  size_t operator()(E n) const { return n->h; }
  bool operator()(E x, E y) const {
    return x->op == y->op && x->w == y->w && x->lo == y->lo && x->var == y->var && x->c == y->c && x->a == y->a &&
           x->b == y->b && x->d == y->d;
  }
};
static std::unordered_set<E, HEq, HEq> interned;
static std::set<std::vector<uint32_t>> varSets;
static const std::vector<uint32_t>* emptySet = &*varSets.insert(std::vector<uint32_t>{}).first;

static const std::vector<uint32_t>* mergeSets(const std::vector<uint32_t>* x, const std::vector<uint32_t>* y) {
  if (x == y || y->empty()) return x;
  if (x->empty()) return y;
  std::vector<uint32_t> r;
  std::set_union(x->begin(), x->end(), y->begin(), y->end(), std::back_inserter(r));
  if (r.size() == x->size()) return x;
  if (r.size() == y->size()) return y;
  return &*varSets.insert(std::move(r)).first;
}

u64 nodeCount() { return arena.size(); }

static E intern(Node n) {
  size_t h = n.op * 1000003u + n.w * 7919u + n.lo * 104729u + n.var * 15485863u;
  h ^= (size_t)n.c * 0x9E3779B97F4A7C15ull + (size_t)(n.c >> 64) * 0xC2B2AE3D27D4EB4Full;
  auto mix = [&](E k) { h = (h ^ (k ? k->id + 1 : 0)) * 0x9E3779B97F4A7C15ull; h ^= h >> 29; };
  mix(n.a); mix(n.b); mix(n.d);
  n.h = h;
  auto it = interned.find(&n);
  if (it != interned.end()) return *it;
  n.id = arena.size();
  n.vars = emptySet;
  if (n.op == VAR) n.vars = &*varSets.insert(std::vector<uint32_t>{n.var}).first;
  if (n.a) n.vars = mergeSets(n.vars, n.a->vars);
  if (n.b) n.vars = mergeSets(n.vars, n.b->vars);
  if (n.d) n.vars = mergeSets(n.vars, n.d->vars);
  arena.push_back(n);
  E p = &arena.back();
  interned.insert(p);
  return p;
}
static Node blank(Op op, unsigned w) {
  Node n;
  memset(&n, 0, sizeof n);
  n.op = op;
  n.w = w;
  return n;
}

E mkConst(u128 v, unsigned w) {
  if (w > 128) { fprintf(stderr, "engine: constant wider than 128 bits\n"); exit(3); }
  Node n = blank(CONST, w);
  n.c = v & maskw(w);
  return intern(n);
}
E mkVar(const std::string& name, unsigned w, bool internal) {
  Node n = blank(VAR, w);
  n.var = g_vars.size();
  g_vars.push_back({name, w, internal});
  return intern(n);
}

u128 foldBin(Op op, u128 a, u128 b, unsigned w) {
  u128 m = maskw(w);
  a &= m; b &= m;
  switch (op) {
    case ADD: return (a + b) & m;
    case SUB: return (a - b) & m;
    case MUL: return (a * b) & m;
    case UDIV: return b ? (a / b) & m : m;
    case UREM: return b ? (a % b) & m : a;
    case SDIV: {
      s128 x = sextw(a, w), y = sextw(b, w);
      if (y == 0) return x < 0 ? 1 : m;
      if (y == -1) return (u128)(-x) & m;
      return (u128)(x / y) & m;
    }
    case SREM: {
      s128 x = sextw(a, w), y = sextw(b, w);
      if (y == 0) return a;
      if (y == -1) return 0;
      return (u128)(x % y) & m;
    }
    case AND: return a & b;
    case OR: return a | b;
    case XOR: return a ^ b;
    case SHL: return b >= w ? 0 : (a << (unsigned)b) & m;
    case LSHR: return b >= w ? 0 : a >> (unsigned)b;
    case ASHR: {
      s128 x = sextw(a, w);
      return (u128)(b >= w ? (x < 0 ? -1 : 0) : (x >> (unsigned)b)) & m;
    }
    case EQ: return a == b;
    case ULT: return a < b;
    case ULE: return a <= b;
    case SLT: return sextw(a, w) < sextw(b, w);
    case SLE: return sextw(a, w) <= sextw(b, w);
    default: abort();
  }
}
static bool isCmp(Op op) { return op >= EQ && op <= SLE; }
static bool isC(E e) { return e->op == CONST; }
static bool isC(E e, u128 v) { return e->op == CONST && e->c == v; }

E mkNot1(E a) { return mkBin(XOR, a, mkConst(1, 1)); }

// Upper bound on the unsigned value (cheap, for trimming comparisons)
static u128 umaxOf(E e) {
  switch (e->op) {
    case CONST: return e->c;
    case ZEXT: return umaxOf(e->a);
    case AND: return std::min(umaxOf(e->a), umaxOf(e->b));
    case UREM: if (isC(e->b) && e->b->c) return e->b->c - 1; return maskw(e->w);
    case ITE: return std::max(umaxOf(e->b), umaxOf(e->d));
    case LSHR: if (isC(e->b) && e->b->c < 128) return umaxOf(e->a) >> (unsigned)e->b->c; return maskw(e->w);
    default: return maskw(e->w);
  }
}
// Unsigned range of a value (cheap, bounded depth)
static void rangeOf(E e, u128& lo, u128& hi, int depth = 0) {
  lo = 0; hi = maskw(e->w);
  if (depth > 8) return;
  switch (e->op) {
    case CONST: lo = hi = e->c; break;
    case ZEXT: rangeOf(e->a, lo, hi, depth + 1); break;
    case AND: case UREM: case LSHR: hi = umaxOf(e); break;
    case ITE: {
      u128 l2, h2;
      rangeOf(e->b, lo, hi, depth + 1);
      rangeOf(e->d, l2, h2, depth + 1);
      lo = std::min(lo, l2); hi = std::max(hi, h2);
      break;
    }
    case EXTRACT: {
      if (e->lo) break;
      u128 l2, h2;
      rangeOf(e->a, l2, h2, depth + 1);
      if (h2 <= maskw(e->w)) { lo = l2; hi = h2; }
      break;
    }
    case ADD: {
      if (!isC(e->b)) break;
      u128 l2, h2;
      rangeOf(e->a, l2, h2, depth + 1);
      u128 k = e->b->c, m = maskw(e->w);
      if (h2 <= m - k) { lo = l2 + k; hi = h2 + k; }
      break;
    }
    default: break;
  }
}

E mkBin(Op op, E a, E b) {
  if (a->w != b->w) { fprintf(stderr, "engine: width mismatch in op %d (%d vs %d)\n", op, a->w, b->w); abort(); }
  unsigned w = a->w;
  if (isC(a) && isC(b)) return mkConst(foldBin(op, a->c, b->c, w), isCmp(op) ? 1 : w);
  bool comm = op == ADD || op == MUL || op == AND || op == OR || op == XOR || op == EQ;
  if (comm && (isC(a) || (!isC(b) && a->id > b->id))) std::swap(a, b);
  // now a constant, if any, of a commutative operator is in b
  switch (op) {
    case ADD:
      if (isC(b, 0)) return a;
      if (isC(b) && a->op == ADD && isC(a->b)) return mkBin(ADD, a->a, mkConst(a->b->c + b->c, w));
      break;
    case SUB:
      if (isC(b, 0)) return a;
      if (a == b) return mkConst(0, w);
      if (isC(b)) return mkBin(ADD, a, mkConst(-b->c, w));
      if (a->op == ADD && a->a == b) return a->b;
      if (a->op == ADD && a->b == b) return a->a;
      break;
    case MUL:
      if (isC(b, 0)) return b;
      if (isC(b, 1)) return a;
      break;
    case AND:
      if (isC(b, 0)) return b;
      if (isC(b, maskw(w))) return a;
      if (a == b) return a;
      if (isC(b)) {
        // contiguous low mask -> zext(extract)
        u128 m = b->c;
        if ((m & (m + 1)) == 0) {
          unsigned k = 0;
          while (k < 128 && ((m >> k) & 1)) k++;
          return mkZExt(mkExtract(a, 0, k), w);
        }
      }
      if (w == 1 && ((a->op == XOR && a->a == b && isC(a->b, 1)) || (b->op == XOR && b->a == a && isC(b->b, 1)))) return mkConst(0, 1);
      break;
    case OR:
      if (isC(b, 0)) return a;
      if (isC(b, maskw(w))) return b;
      if (a == b) return a;
      if (w == 1 && ((a->op == XOR && a->a == b && isC(a->b, 1)) || (b->op == XOR && b->a == a && isC(b->b, 1)))) return mkConst(1, 1);
      // zext(lo) | (zext(hi) << k)  ->  concatenation
      {
        E x = a, y = b;
        if (x->op == SHL || (x->op == CONCAT && isC(x->b, 0))) std::swap(x, y);
        if (x->op == ZEXT && y->op == CONCAT && isC(y->b, 0) && x->a->w <= y->b->w)
          return mkConcat(y->a, mkZExt(x->a, y->b->w));
        if (x->op == ZEXT && y->op == ZEXT && y->a->op == CONCAT && isC(y->a->b, 0) && x->a->w <= y->a->b->w)
          return mkZExt(mkConcat(y->a->a, mkZExt(x->a, y->a->b->w)), w);
      }
      break;
    case XOR:
      if (isC(b, 0)) return a;
      if (a == b) return mkConst(0, w);
      if (isC(b) && a->op == XOR && isC(a->b)) return mkBin(XOR, a->a, mkConst(a->b->c ^ b->c, w));
      if (w == 1 && isC(b, 1)) {
        if (a->op == ITE) return mkIte(a->a, mkNot1(a->b), mkNot1(a->d));
        if (a->op == ULT) return mkBin(ULE, a->b, a->a);
        if (a->op == ULE) return mkBin(ULT, a->b, a->a);
        if (a->op == SLT) return mkBin(SLE, a->b, a->a);
        if (a->op == SLE) return mkBin(SLT, a->b, a->a);
      }
      break;
    case SHL:
      if (isC(b, 0)) return a;
      if (isC(b)) {
        if (b->c >= w) return mkConst(0, w);
        unsigned k = (unsigned)b->c;
        return mkConcat(mkExtract(a, 0, w - k), mkConst(0, k));
      }
      break;
    case LSHR:
      if (isC(b, 0)) return a;
      if (isC(b)) {
        if (b->c >= w) return mkConst(0, w);
        unsigned k = (unsigned)b->c;
        return mkZExt(mkExtract(a, k, w - k), w);
      }
      break;
    case ASHR:
      if (isC(b, 0)) return a;
      if (isC(b)) {
        unsigned k = b->c >= w ? w - 1 : (unsigned)b->c;
        return mkSExt(mkExtract(a, k, w - k), w);
      }
      break;
    case UDIV:
      if (isC(b, 1)) return a;
      if (isC(b) && b->c && (b->c & (b->c - 1)) == 0) {
        unsigned k = 0;
        while (((b->c >> k) & 1) == 0) k++;
        return mkBin(LSHR, a, mkConst(k, w));
      }
      break;
    case UREM:
      if (isC(b, 1)) return mkConst(0, w);
      if (isC(b) && b->c && (b->c & (b->c - 1)) == 0) return mkBin(AND, a, mkConst(b->c - 1, w));
      break;
    case EQ:
      if (a == b) return mkConst(1, 1);
      if (w == 1 && isC(b)) return b->c ? a : mkNot1(a);
      if (isC(b)) {
        u128 lo, hi;
        rangeOf(a, lo, hi);
        if (b->c < lo || b->c > hi) return mkConst(0, 1);
        if (a->op == ZEXT) {
          if (b->c & ~maskw(a->a->w)) return mkConst(0, 1);
          return mkBin(EQ, a->a, mkConst(b->c, a->a->w));
        }
        if (a->op == SEXT) {
          u128 lo = b->c & maskw(a->a->w);
          if (((u128)sextw(lo, a->a->w) & maskw(w)) != b->c) return mkConst(0, 1);
          return mkBin(EQ, a->a, mkConst(lo, a->a->w));
        }
        if (a->op == CONCAT && (isC(a->a) || isC(a->b)))
          return mkBin(AND, mkBin(EQ, a->a, mkConst(b->c >> a->b->w, a->a->w)), mkBin(EQ, a->b, mkConst(b->c, a->b->w)));
        if (a->op == ADD && isC(a->b)) return mkBin(EQ, a->a, mkConst(b->c - a->b->c, w));
        if (a->op == XOR && isC(a->b)) return mkBin(EQ, a->a, mkConst(b->c ^ a->b->c, w));
        if (a->op == ITE && (isC(a->b) || isC(a->d)))
          return mkIte(a->a, mkBin(EQ, a->b, b), mkBin(EQ, a->d, b));
      } else {
        if (a->op == ZEXT && b->op == ZEXT && a->a->w == b->a->w) return mkBin(EQ, a->a, b->a);
        if (a->op == SEXT && b->op == SEXT && a->a->w == b->a->w) return mkBin(EQ, a->a, b->a);
        if (a->op == CONCAT && b->op == CONCAT && a->a->w == b->a->w && (a->a == b->a || a->b == b->b))
          return mkBin(AND, mkBin(EQ, a->a, b->a), mkBin(EQ, a->b, b->b));
      }
      break;
    case ULT:
      if (a == b || isC(b, 0)) return mkConst(0, 1);
      if (isC(b)) { u128 lo, hi; rangeOf(a, lo, hi); if (hi < b->c) return mkConst(1, 1); if (lo >= b->c) return mkConst(0, 1); }
      if (isC(a)) { u128 lo, hi; rangeOf(b, lo, hi); if (a->c < lo) return mkConst(1, 1); if (a->c >= hi) return mkConst(0, 1); }
      if (isC(a, maskw(w))) return mkConst(0, 1);
      if (isC(b) && umaxOf(a) < b->c) return mkConst(1, 1);
      if (isC(a) && umaxOf(b) <= a->c) return mkConst(0, 1);
      if (isC(b, 1)) return mkBin(EQ, a, mkConst(0, w));
      break;
    case ULE:
      if (a == b || isC(a, 0)) return mkConst(1, 1);
      if (isC(b)) { u128 lo, hi; rangeOf(a, lo, hi); if (hi <= b->c) return mkConst(1, 1); if (lo > b->c) return mkConst(0, 1); }
      if (isC(a)) { u128 lo, hi; rangeOf(b, lo, hi); if (a->c <= lo) return mkConst(1, 1); if (a->c > hi) return mkConst(0, 1); }
      if (isC(b) && umaxOf(a) <= b->c) return mkConst(1, 1);
      if (isC(a) && umaxOf(b) < a->c) return mkConst(0, 1);
      if (isC(b, 0)) return mkBin(EQ, a, mkConst(0, w));
      break;
    case SLT:
      if (a == b) return mkConst(0, 1);
      if (isC(b) && a->op == ZEXT && a->a->w < w) {
        if (sextw(b->c, w) <= 0) return mkConst(0, 1);
        return mkBin(ULT, a, b);
      }
      if (isC(a) && b->op == ZEXT && b->a->w < w) {
        if (sextw(a->c, w) < 0) return mkConst(1, 1);
        return mkBin(ULT, a, b);
      }
      break;
    case SLE:
      if (a == b) return mkConst(1, 1);
      if (isC(b) && a->op == ZEXT && a->a->w < w) {
        if (sextw(b->c, w) < 0) return mkConst(0, 1);
        return mkBin(ULE, a, b);
      }
      break;
    default: break;
  }
  // push a comparison / operator with a constant through an ite of constants
  if (isC(b) && a->op == ITE && isC(a->b) && isC(a->d)) return mkIte(a->a, mkBin(op, a->b, b), mkBin(op, a->d, b));
  if (isC(a) && b->op == ITE && isC(b->b) && isC(b->d)) return mkIte(b->a, mkBin(op, a, b->b), mkBin(op, a, b->d));
  Node n = blank(op, isCmp(op) ? 1 : w);
  n.a = a;
  n.b = b;
  return intern(n);
}

E mkZExt(E a, unsigned w) {
  if (w == a->w) return a;
  if (isC(a)) return mkConst(a->c, w);
  if (a->op == ZEXT) return mkZExt(a->a, w);
  if (a->op == ITE && isC(a->b) && isC(a->d)) return mkIte(a->a, mkConst(a->b->c, w), mkConst(a->d->c, w));
  Node n = blank(ZEXT, w);
  n.a = a;
  return intern(n);
}
E mkSExt(E a, unsigned w) {
  if (w == a->w) return a;
  if (isC(a)) return mkConst((u128)sextw(a->c, a->w), w);
  if (a->op == SEXT) return mkSExt(a->a, w);
  if (a->op == ZEXT) return mkZExt(a->a, w);
  if (a->op == ITE && isC(a->b) && isC(a->d)) return mkIte(a->a, mkSExt(a->b, w), mkSExt(a->d, w));
  Node n = blank(SEXT, w);
  n.a = a;
  return intern(n);
}
E mkExtract(E a, unsigned lo, unsigned w) {
  if (lo == 0 && w == a->w) return a;
  if (isC(a)) return mkConst(a->c >> lo, w);
  switch (a->op) {
    case EXTRACT: return mkExtract(a->a, a->lo + lo, w);
    case CONCAT: {
      unsigned lw = a->b->w;
      if (lo + w <= lw) return mkExtract(a->b, lo, w);
      if (lo >= lw) return mkExtract(a->a, lo - lw, w);
      return mkConcat(mkExtract(a->a, 0, lo + w - lw), mkExtract(a->b, lo, lw - lo));
    }
    case ZEXT: {
      unsigned aw = a->a->w;
      if (lo >= aw) return mkConst(0, w);
      if (lo + w <= aw) return mkExtract(a->a, lo, w);
      return mkZExt(mkExtract(a->a, lo, aw - lo), w);
    }
    case SEXT: {
      unsigned aw = a->a->w;
      if (lo + w <= aw) return mkExtract(a->a, lo, w);
      if (lo < aw) return mkSExt(mkExtract(a->a, lo, aw - lo), w);
      break;
    }
    case AND: case OR: case XOR:
      if (isC(a->b)) return mkBin(a->op, mkExtract(a->a, lo, w), mkExtract(a->b, lo, w));
      break;
    case ADD: case SUB: case MUL:
      if (lo == 0) return mkBin(a->op, mkExtract(a->a, 0, w), mkExtract(a->b, 0, w));
      break;
    case ITE:
      if (isC(a->b) || isC(a->d)) return mkIte(a->a, mkExtract(a->b, lo, w), mkExtract(a->d, lo, w));
      break;
    default: break;
  }
  Node n = blank(EXTRACT, w);
  n.a = a;
  n.lo = lo;
  return intern(n);
}
E mkConcat(E hi, E lo) {
  unsigned w = hi->w + lo->w;
  if (w > 128) { fprintf(stderr, "engine: concatenation wider than 128 bits\n"); abort(); }
  if (isC(hi) && isC(lo)) return mkConst((hi->c << lo->w) | lo->c, w);
  if (isC(hi, 0)) return mkZExt(lo, w);
  if (hi->op == EXTRACT && lo->op == EXTRACT && hi->a == lo->a && hi->lo == lo->lo + lo->w)
    return mkExtract(hi->a, lo->lo, w);
  if (hi->op == EXTRACT && hi->a == lo && hi->lo == lo->w) return mkExtract(hi->a, 0, w);
  // concat(h, concat(x, y)) where h and x merge
  if (lo->op == CONCAT) {
    E x = lo->a;
    if ((isC(hi) && isC(x)) || (hi->op == EXTRACT && x->op == EXTRACT && hi->a == x->a && hi->lo == x->lo + x->w))
      return mkConcat(mkConcat(hi, x), lo->b);
  }
  if (hi->op == ZEXT) return mkZExt(mkConcat(hi->a, lo), w);
  // high part of a byte-split sign or zero extension
  if (hi->op == EXTRACT && hi->a->op == ZEXT && lo->op == EXTRACT && lo->a == hi->a->a && hi->lo == lo->lo + lo->w)
    return mkExtract(hi->a, lo->lo, w);
  if (hi->op == SEXT && hi->a->op == EXTRACT && hi->a->w == 1 && lo->op != CONST && hi->a->a == lo && hi->a->lo == lo->w - 1)
    return mkSExt(lo, w);
  if (hi->op == ITE && lo->op == ITE && hi->a == lo->a) return mkIte(hi->a, mkConcat(hi->b, lo->b), mkConcat(hi->d, lo->d));
  Node n = blank(CONCAT, w);
  n.a = hi;
  n.b = lo;
  return intern(n);
}
E mkIte(E c, E t, E f) {
  if (isC(c)) return c->c ? t : f;
  if (t == f) return t;
  if (t->w == 1) {
    if (isC(t, 1) && isC(f, 0)) return c;
    if (isC(t, 0) && isC(f, 1)) return mkNot1(c);
    if (isC(t, 1)) return mkBin(OR, c, f);
    if (isC(f, 0)) return mkBin(AND, c, t);
    if (isC(t, 0)) return mkBin(AND, mkNot1(c), f);
    if (isC(f, 1)) return mkBin(OR, mkNot1(c), t);
  }
  if (c->op == XOR && c->w == 1 && isC(c->b, 1)) return mkIte(c->a, f, t);
  if (f->op == ITE && f->a == c) return mkIte(c, t, f->d);
  if (t->op == ITE && t->a == c) return mkIte(c, t->b, f);
  Node n = blank(ITE, t->w);
  n.a = c;
  n.b = t;
  n.d = f;
  return intern(n);
}
unsigned trailingZeros(E e) {
  switch (e->op) {
    case CONST: {
      if (!e->c) return e->w;
      unsigned k = 0;
      while (!((e->c >> k) & 1)) k++;
      return k;
    }
    case ADD: case SUB: case OR: case XOR: return std::min(trailingZeros(e->a), trailingZeros(e->b));
    case MUL: return std::min<unsigned>(e->w, trailingZeros(e->a) + trailingZeros(e->b));
    case CONCAT: { unsigned k = trailingZeros(e->b); return k == e->b->w ? k + trailingZeros(e->a) : k; }
    case ZEXT: case SEXT: { unsigned k = trailingZeros(e->a); return k == e->a->w ? e->w : k; }
    case ITE: return std::min(trailingZeros(e->b), trailingZeros(e->d));
    default: return 0;
  }
}

// ---- evaluation -----------------------------------------------------------------------------------------------
static std::vector<u128> evVal;
static std::vector<uint32_t> evStamp;
static uint32_t evGen = 0;
static u128 evalRec(E e, const Model& m) {
  if (e->op == CONST) return e->c;
  if (e->op == VAR) return e->var < m.size() ? m[e->var] & maskw(e->w) : 0;
  if (evStamp[e->id] == evGen) return evVal[e->id];
  u128 r;
  switch (e->op) {
    case ZEXT: r = evalRec(e->a, m); break;
    case SEXT: r = (u128)sextw(evalRec(e->a, m), e->a->w) & maskw(e->w); break;
    case EXTRACT: r = (evalRec(e->a, m) >> e->lo) & maskw(e->w); break;
    case CONCAT: r = (evalRec(e->a, m) << e->b->w) | evalRec(e->b, m); break;
    case ITE: r = evalRec(e->a, m) ? evalRec(e->b, m) : evalRec(e->d, m); break;
    default: r = foldBin(e->op, evalRec(e->a, m), evalRec(e->b, m), e->a->w); break;
  }
  evStamp[e->id] = evGen;
  evVal[e->id] = r;
  return r;
}
u128 evalNode(E e, const Model& m) {
  if (evStamp.size() < arena.size()) {
    evStamp.resize(arena.size() * 2, 0);
    evVal.resize(arena.size() * 2);
  }
  if (++evGen == 0) { std::fill(evStamp.begin(), evStamp.end(), 0); evGen = 1; }
  return evalRec(e, m);
}

// ---- Z3 -------------------------------------------------------------------------------------------------------
static Z3_context zc = nullptr;
static Z3_solver zs = nullptr;
static std::unordered_map<uint32_t, Z3_ast> zmap;
static void zerr(Z3_context c, Z3_error_code e) {
  fprintf(stderr, "engine: z3 error: %s\n", Z3_get_error_msg(c, e));
  exit(3);
}
static void zinit() {
  if (zc) return;
  Z3_config cfg = Z3_mk_config();
  zc = Z3_mk_context(cfg);  // reference counting of asts is off: they live as long as the context
  Z3_set_error_handler(zc, zerr);
  zs = Z3_mk_simple_solver(zc);
  Z3_solver_inc_ref(zc, zs);
  Z3_params p = Z3_mk_params(zc);
  Z3_params_inc_ref(zc, p);
  Z3_params_set_uint(zc, p, Z3_mk_string_symbol(zc, "timeout"), 3000);
  Z3_solver_set_params(zc, zs, p);
}
static Z3_ast zbv(E e);
static Z3_ast zbool(E e) {  // 1-bit node as a Z3 boolean
  switch (e->op) {
    case EQ: return Z3_mk_eq(zc, zbv(e->a), zbv(e->b));
    case ULT: return Z3_mk_bvult(zc, zbv(e->a), zbv(e->b));
    case ULE: return Z3_mk_bvule(zc, zbv(e->a), zbv(e->b));
    case SLT: return Z3_mk_bvslt(zc, zbv(e->a), zbv(e->b));
    case SLE: return Z3_mk_bvsle(zc, zbv(e->a), zbv(e->b));
    case AND: { Z3_ast k[2] = {zbool(e->a), zbool(e->b)}; return Z3_mk_and(zc, 2, k); }
    case OR: { Z3_ast k[2] = {zbool(e->a), zbool(e->b)}; return Z3_mk_or(zc, 2, k); }
    case XOR: if (isC(e->b, 1)) return Z3_mk_not(zc, zbool(e->a)); break;
    case ITE: return Z3_mk_ite(zc, zbool(e->a), zbool(e->b), zbool(e->d));
    case CONST: return e->c ? Z3_mk_true(zc) : Z3_mk_false(zc);
    default: break;
  }
  return Z3_mk_eq(zc, zbv(e), Z3_mk_unsigned_int64(zc, 1, Z3_mk_bv_sort(zc, 1)));
}
static std::unordered_map<uint32_t, Z3_ast> zboolmap;
static Z3_ast zboolc(E e) {
  auto it = zboolmap.find(e->id);
  if (it != zboolmap.end()) return it->second;
  return zboolmap[e->id] = zbool(e);
}
static Z3_ast zbv(E e) {
  auto it = zmap.find(e->id);
  if (it != zmap.end()) return it->second;
  Z3_ast r;
  Z3_sort s = Z3_mk_bv_sort(zc, e->w);
  switch (e->op) {
    case CONST:
      if (e->w <= 64) r = Z3_mk_unsigned_int64(zc, (u64)e->c, s);
      else r = Z3_mk_concat(zc, Z3_mk_unsigned_int64(zc, (u64)(e->c >> 64), Z3_mk_bv_sort(zc, e->w - 64)),
                            Z3_mk_unsigned_int64(zc, (u64)e->c, Z3_mk_bv_sort(zc, 64)));
      break;
    case VAR: r = Z3_mk_const(zc, Z3_mk_int_symbol(zc, e->var), s); break;
    case ADD: r = Z3_mk_bvadd(zc, zbv(e->a), zbv(e->b)); break;
    case SUB: r = Z3_mk_bvsub(zc, zbv(e->a), zbv(e->b)); break;
    case MUL: r = Z3_mk_bvmul(zc, zbv(e->a), zbv(e->b)); break;
    case UDIV: r = Z3_mk_bvudiv(zc, zbv(e->a), zbv(e->b)); break;
    case SDIV: r = Z3_mk_bvsdiv(zc, zbv(e->a), zbv(e->b)); break;
    case UREM: r = Z3_mk_bvurem(zc, zbv(e->a), zbv(e->b)); break;
    case SREM: r = Z3_mk_bvsrem(zc, zbv(e->a), zbv(e->b)); break;
    case AND: r = Z3_mk_bvand(zc, zbv(e->a), zbv(e->b)); break;
    case OR: r = Z3_mk_bvor(zc, zbv(e->a), zbv(e->b)); break;
    case XOR: r = Z3_mk_bvxor(zc, zbv(e->a), zbv(e->b)); break;
    case SHL: r = Z3_mk_bvshl(zc, zbv(e->a), zbv(e->b)); break;
    case LSHR: r = Z3_mk_bvlshr(zc, zbv(e->a), zbv(e->b)); break;
    case ASHR: r = Z3_mk_bvashr(zc, zbv(e->a), zbv(e->b)); break;
    case ZEXT: r = Z3_mk_zero_ext(zc, e->w - e->a->w, zbv(e->a)); break;
    case SEXT: r = Z3_mk_sign_ext(zc, e->w - e->a->w, zbv(e->a)); break;
    case EXTRACT: r = Z3_mk_extract(zc, e->lo + e->w - 1, e->lo, zbv(e->a)); break;
    case CONCAT: r = Z3_mk_concat(zc, zbv(e->a), zbv(e->b)); break;
    case ITE: r = Z3_mk_ite(zc, zboolc(e->a), zbv(e->b), zbv(e->d)); break;
    default:
      r = Z3_mk_ite(zc, zboolc(e), Z3_mk_unsigned_int64(zc, 1, s), Z3_mk_unsigned_int64(zc, 0, s));
  }
  return zmap[e->id] = r;
}

struct VecHash { size_t operator()(const std::vector<uint32_t>& v) const { size_t h = v.size(); for (auto x : v) { h = (h ^ x) * 0x9E3779B97F4A7C15ull; h ^= h >> 31; } return h; } };
struct CacheEnt { int r; std::vector<std::pair<uint32_t, u128>> m; };
static std::unordered_map<std::vector<uint32_t>, CacheEnt, VecHash> qcache;

std::vector<E> sliceFor(const std::vector<E>& pc, E cond) {
  std::vector<E> out{cond};
  std::vector<char> used(pc.size(), 0);
  std::unordered_set<uint32_t> vars(cond->vars->begin(), cond->vars->end());
  bool ch = true;
  while (ch) {
    ch = false;
    for (size_t i = 0; i < pc.size(); i++) {
      if (used[i]) continue;
      bool hit = false;
      for (auto v : *pc[i]->vars) if (vars.count(v)) { hit = true; break; }
      if (!hit) continue;
      used[i] = 1;
      out.push_back(pc[i]);
      for (auto v : *pc[i]->vars) if (vars.insert(v).second) ch = true;
    }
  }
  return out;
}

static void readModel(Z3_solver s, const std::vector<E>& cs, Model& m, CacheEnt& ce) {
  Z3_model zm = Z3_solver_get_model(zc, s);
  Z3_model_inc_ref(zc, zm);
  std::unordered_set<uint32_t> vs;
  for (E c : cs) vs.insert(c->vars->begin(), c->vars->end());
  for (uint32_t v : vs) {
    unsigned w = g_vars[v].w;
    Z3_ast x = Z3_mk_const(zc, Z3_mk_int_symbol(zc, v), Z3_mk_bv_sort(zc, w));
    Z3_ast val;
    u128 r = 0;
    if (Z3_model_eval(zc, zm, x, true, &val)) {
      const char* s2 = Z3_get_numeral_string(zc, val);
      for (const char* p = s2; *p; p++) r = r * 10 + (*p - '0');
    }
    if (m.size() <= v) m.resize(g_vars.size(), 0);
    m[v] = r;
    ce.m.push_back({v, r});
  }
  Z3_model_dec_ref(zc, zm);
}

int solve(const std::vector<E>& cs, Model& m) {
  for (E c : cs) if (isC(c, 0)) return 0;
  std::vector<uint32_t> key;
  for (E c : cs) if (!isC(c)) key.push_back(c->id);
  std::sort(key.begin(), key.end());
  key.erase(std::unique(key.begin(), key.end()), key.end());
  if (key.empty()) return 1;
  // direct contradiction with a negated member
  auto it = qcache.find(key);
  if (it != qcache.end()) {
    g_ss.cacheHits++;
    if (it->second.r == 1) {
      if (m.size() < g_vars.size()) m.resize(g_vars.size(), 0);
      for (auto& p : it->second.m) m[p.first] = p.second;
    }
    return it->second.r;
  }
  zinit();
  auto t0 = std::chrono::steady_clock::now();
  g_ss.queries++;
  CacheEnt ce;
  Z3_solver_push(zc, zs);
  for (E c : cs) Z3_solver_assert(zc, zs, zboolc(c));
  Z3_lbool r = Z3_solver_check(zc, zs);
  if (r == Z3_L_TRUE) readModel(zs, cs, m, ce);
  Z3_solver_pop(zc, zs, 1);
  if (r == Z3_L_UNDEF) {
    Z3_solver s2 = Z3_mk_solver_for_logic(zc, Z3_mk_string_symbol(zc, "QF_BV"));
    Z3_solver_inc_ref(zc, s2);
    Z3_params p = Z3_mk_params(zc);
    Z3_params_inc_ref(zc, p);
    Z3_params_set_uint(zc, p, Z3_mk_string_symbol(zc, "timeout"), g_solverTimeoutMs);
    Z3_solver_set_params(zc, s2, p);
    for (E c : cs) Z3_solver_assert(zc, s2, zboolc(c));
    r = Z3_solver_check(zc, s2);
    if (r == Z3_L_TRUE) readModel(s2, cs, m, ce);
    Z3_solver_dec_ref(zc, s2);
    Z3_params_dec_ref(zc, p);
  }
  double dt = std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count();
  g_ss.seconds += dt;
  g_ss.maxSeconds = std::max(g_ss.maxSeconds, dt);
  ce.r = r == Z3_L_TRUE ? 1 : r == Z3_L_FALSE ? 0 : -1;
  if (ce.r == 1) {
    g_ss.sat++;
    for (E c : cs)
      if (!evalNode(c, m)) { fprintf(stderr, "engine: model from solver does not satisfy the query: %s\n", nodeStr(c).c_str()); exit(3); }
  } else if (ce.r == 0) g_ss.unsat++;
  else g_ss.unknown++;
  qcache[key] = ce;
  return ce.r;
}

std::string nodeStr(E e, int depth) {
  static const char* nm[] = {"const", "var", "+", "-", "*", "udiv", "sdiv", "urem", "srem", "&", "|", "^", "shl", "lshr", "ashr",
                             "==", "u<", "u<=", "s<", "s<=", "zext", "sext", "extract", "concat", "ite"};
  char buf[80];
  if (e->op == CONST) {
    if (e->c >> 64) snprintf(buf, sizeof buf, "0x%llx%016llx", (unsigned long long)(e->c >> 64), (unsigned long long)e->c);
    else snprintf(buf, sizeof buf, "%llu", (unsigned long long)e->c);
    return buf;
  }
  if (e->op == VAR) return g_vars[e->var].name;
  if (depth == 0) return "..";
  std::string s = std::string("(") + nm[e->op];
  if (e->op == EXTRACT) { snprintf(buf, sizeof buf, "[%d+%d]", e->lo, e->w); s += buf; }
  if (e->op == ZEXT || e->op == SEXT) { snprintf(buf, sizeof buf, "%d", e->w); s += buf; }
  for (E k : {e->a, e->b, e->d}) if (k) s += " " + nodeStr(k, depth - 1);
  return s + ")";
}
