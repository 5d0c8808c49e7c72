#pragma once
#include "expr.h"
#include <map>
#include <memory>
#include <set>
#include <unordered_set>
#include <llvm/ADT/DenseMap.h>
#include <llvm/IR/DataLayout.h>
#include <llvm/IR/Function.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/Module.h>
#include <llvm/IR/Operator.h>

// A runtime value: a concrete bit string (n == null), a symbolic one, or an aggregate.
struct Val {
  u128 c = 0;
  E n = nullptr;
  uint32_t w = 0;
  std::shared_ptr<std::vector<Val>> agg;
  Val() {}
  Val(u128 v, unsigned width) : c(v & maskw(width)), w(width) {}
  Val(E e) : n(e), w(e->w) { if (e->op == CONST) { c = e->c; n = nullptr; } }
  bool conc() const { return n == nullptr; }
  E node() const { return n ? n : mkConst(c, w); }
};

struct Obj {
  u64 base = 0, size = 0;
  enum Kind : uint8_t { GLOBAL, HEAP, STACK } kind = GLOBAL;
  bool ro = false;
  uint8_t allocFn = 0;  // heap: 0 malloc, 1 new, 2 new[]
  std::string name;
  std::vector<uint8_t> c;
  std::vector<E> s;       // empty, or one entry per byte (null: concrete)
  std::vector<uint8_t> u; // empty, or one flag per byte: uninitialised
};
typedef std::shared_ptr<Obj> ObjP;

struct KInst {
  const llvm::Instruction* I;
  std::vector<int> ops;   // >= 0 register, < 0 constant ~i
  int dst = -1;
  std::vector<int> succ;  // branch targets: flattened instruction index
  std::vector<int> succBB;
};
struct KFunction {
  const llvm::Function* F;
  std::vector<KInst> code;
  std::vector<int> bbStart;
  unsigned nregs = 0;
  llvm::DenseMap<const llvm::BasicBlock*, int> bbIdx;
  bool fromRepo = false;
};
struct Frame {
  KFunction* kf;
  int pc = 0;
  int bb = 0, prevbb = -1;
  int callerDst = -1;
  int callerResume = 0;  // instruction index in the caller
  std::vector<Val> regs;
  std::vector<u64> allocas;
  u64 varargs = 0;
};
struct InputRec { std::string name; std::vector<E> bytes; };
struct State {
  std::vector<Frame> st;
  std::map<u64, ObjP> mem;
  std::vector<E> pc;
  std::unordered_set<E> pcSet;
  Model model;
  std::vector<InputRec> inputs;
  std::vector<std::string> reached;
  u64 heapPtr = 0, stackPtr = 0, steps = 0;
  int64_t live = 0;
  u64 nextVar = 0;
  u64 forks = 0;
  bool exactFmt = false;
};
