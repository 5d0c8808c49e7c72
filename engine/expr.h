// Bit-vector expression DAG: hash-consed, lightly simplified, evaluable under a model, lowered to Z3 on demand.
#pragma once
#include <cstdint>
#include <cstring>
#include <string>
#include <unordered_map>
#include <vector>

typedef unsigned __int128 u128;
typedef __int128 s128;
typedef uint64_t u64;
typedef int64_t s64;

enum Op : uint8_t {
  CONST, VAR, ADD, SUB, MUL, UDIV, SDIV, UREM, SREM, AND, OR, XOR, SHL, LSHR, ASHR,
  EQ, ULT, ULE, SLT, SLE, ZEXT, SEXT, EXTRACT, CONCAT, ITE
};

struct Node;
typedef const Node* E;
struct Node {
  Op op;
  uint16_t w;
  uint16_t lo;    // EXTRACT: low bit
  uint32_t id;
  uint32_t var;   // VAR: index
  u128 c;         // CONST: value
  E a, b, d;
  size_t h;
  const std::vector<uint32_t>* vars;  // sorted, unique
};

inline u128 maskw(unsigned w) { return w >= 128 ? ~(u128)0 : (((u128)1 << w) - 1); }
inline s128 sextw(u128 v, unsigned w) {
  if (w >= 128) return (s128)v;
  u128 m = (u128)1 << (w - 1);
  v &= maskw(w);
  return (s128)((v ^ m) - m);
}

struct VarInfo { std::string name; unsigned w; bool internal; };
extern std::vector<VarInfo> g_vars;

u128 foldBin(Op op, u128 a, u128 b, unsigned w);
E mkConst(u128 v, unsigned w);
E mkVar(const std::string& name, unsigned w, bool internal);
E mkBin(Op op, E a, E b);
E mkZExt(E a, unsigned w);
E mkSExt(E a, unsigned w);
E mkExtract(E a, unsigned lo, unsigned w);
E mkConcat(E hi, E lo);
E mkIte(E c, E t, E f);
E mkNot1(E a);
unsigned trailingZeros(E e);

typedef std::vector<u128> Model;  // indexed by variable; missing entries read as 0
u128 evalNode(E e, const Model& m);

struct SolverStats { u64 queries = 0, sat = 0, unsat = 0, unknown = 0, cacheHits = 0, guessed = 0; double seconds = 0, maxSeconds = 0; };
extern SolverStats g_ss;
extern unsigned g_solverTimeoutMs;
// Satisfiability of the conjunction: 1 sat (model entries of the variables in cs are written), 0 unsat, -1 unknown.
int solve(const std::vector<E>& cs, Model& m);
// The constraints of pc that share variables, transitively, with cond.
std::vector<E> sliceFor(const std::vector<E>& pc, E cond);
std::string nodeStr(E e, int depth = 5);
u64 nodeCount();
