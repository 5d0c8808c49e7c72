// The generator's model of types, parameters and functions: equality, hashes and views, for every object of bounded
// shape.  Hashes are taken without collisions (rt/shimhash): equal means that the same details went into them.
#include "vf.h"
#include <EasyMock_CType.h>
#include <StructType.h>
#include <UnionType.h>
#include <ClassType.h>
#include <Enum.h>
#include <IncompleteType.h>
#include <Pointer.h>
#include <Reference.h>
#include <ConstQualifiedType.h>
#include <TypedefType.h>
#include <FunctionType.h>
#include <FunctionDeclaration.h>
#include <FunctionAttribute.h>
#include <ComposableField.h>
#include <ComposableBitfield.h>
#include <Namespace.h>
#ifndef LEAN
#define LEAN 0
#endif
#ifndef MAX
#define MAX 1
#endif
typedef std::shared_ptr<TypeItf> T;
// What an object is made of; two objects are the same when these are
struct Sig {
  long v[64];
  int n = 0;
  void add(long x) { vf_assert(n < 64, "harness: description too long"); v[n++] = x; }
};
static bool same(const Sig &a, const Sig &b)
{
  if (a.n != b.n) return false;
  long d = 0;
  for (int i = 0; i < a.n; i++) d |= a.v[i] ^ b.v[i];
  return d == 0;
}
// Choices of the shape: taken afresh, or those of an earlier object again
static unsigned made[64];
static int nmade, again = -1, differ = -1;
// Of the names, at most one of the second object differs from that of the first, where the shapes are the same
static char named[16];
static int nnamed, againNamed;
static unsigned char flags[16];
static int nflags, againFlags;
static void second()
{
  again = againNamed = againFlags = 0;
  differ = (int)vf_choice((unsigned)(nmade + nnamed) + 1, "difference");
}
// (LEAN: only those whose name starts with +)
static unsigned choose(unsigned n, const char *name)
{
  if (LEAN && name[0] != '+') return 0;
  unsigned c;
  if (again >= 0 && again < nmade && again != differ) c = made[again] < n ? made[again] : 0;
  else { c = vf_choice(n, name); if (again < 0) { vf_assert(nmade < 64, "harness: too many choices"); made[nmade++] = c; } }
  if (again >= 0) again++;
  return c;
}
static std::string name(Sig &s, char from, bool mayBeEmpty)
{
  if (mayBeEmpty && choose(2, "unnamed")) { s.add(-1); return ""; }
  char c;
  if (again >= 0 && againNamed < nnamed && nmade + againNamed != differ) c = named[againNamed++];
  else {
    VF_SYM(c, "name");
    vf_assume((c >= from) & (c < from + 10));
    if (again >= 0) againNamed++;
    else { vf_assert(nnamed < 16, "harness: too many names"); named[nnamed++] = c; }
  }
  s.add(c);
  return std::string(1, c);
}
// Flags differ in any way where nothing else does
static unsigned flag(Sig &s, const char *what, unsigned n = 2)
{
  if (LEAN) return 0;
  unsigned char c;
  if (again >= 0 && againFlags < nflags && differ != nmade + nnamed) c = flags[againFlags++];
  else {
    c = (unsigned char)vf_range(n, what);
    if (again < 0) { vf_assert(nflags < 16, "harness: too many flags"); flags[nflags++] = c; }
    else againFlags++;
  }
  s.add(c);
  return c;
}
static T simple(Sig &s)
{
  static const easyMock_cTypes_t c[] = {CTYPE_INT, CTYPE_UCHAR};
  unsigned k = choose(2, "ctype");
  s.add(100 + c[k]);
  return std::make_shared<CType>(c[k]);
}
template<typename D> static void declare(D &d, Sig &s, bool may)
{
  if (may && choose(2, "declared")) d.setDeclareString(name(s, 'n', false));
  else s.add(-2);
}
static ComposableType::ComposableFieldTypeVector fields(Sig &s, int max)
{
  ComposableType::ComposableFieldTypeVector v;
  int n = (int)choose((unsigned)max + 1, "fields");
  s.add(n);
  for (int i = 0; i < n; i++) {
    unsigned k = choose(3, "field");
    s.add(k);
    T t = simple(s);
    std::string nm = name(s, 'a', k == 0);
    if (k == 0) { ComposableField f(t, nm); declare(f, s, true); v.emplace_back(std::move(f)); }
    if (k == 1) { long len; VF_SYM(len, "array size"); vf_assume((len >= 0) & (len < 1l << 60)); s.add(len); ComposableField f(t, nm, {.arraySize = len}); v.emplace_back(std::move(f)); }
    if (k == 2) { unsigned char w; VF_SYM(w, "bits"); s.add(w); ComposableBitfield f(t, nm, w); v.emplace_back(std::move(f)); }
  }
  return v;
}
static Parameter::Vector parameters(Sig &s, int max)
{
  Parameter::Vector v;
  int n = (int)choose((unsigned)max + 1, "parameters");
  s.add(n);
  for (int i = 0; i < n; i++) {
    T t = simple(s);
    Sig names;          // the name of a parameter makes no difference
    Parameter p(t, name(names, 'a', false));
    declare(p, s, i == 0);
    v.push_back(std::move(p));
  }
  return v;
}
enum { CT, STRUCT, UNION, CLASS, ENUM, INCOMPLETE, FUNCTION, NBASE };
static T base(Sig &s, int maxFields, unsigned kind)
{
  s.add(10 + kind);
  switch (kind) {
  case CT: return simple(s);
  case STRUCT: case UNION: case CLASS: {
    std::string n = name(s, 'a', true);
    ComposableType::ComposableFieldTypeVector f = fields(s, maxFields);
    bool emb = flag(s, "embedded");
    std::shared_ptr<ComposableType> c;
    if (kind == STRUCT) c = std::make_shared<StructType>(n, std::move(f), emb);
    else if (kind == UNION) c = std::make_shared<UnionType>(n, std::move(f), emb);
    else c = std::make_shared<ClassType>(n, std::move(f), emb);
    c->setForwardDecl(flag(s, "forward"));
    return c;
  }
  case ENUM: {
    std::shared_ptr<Enum> e = std::make_shared<Enum>(name(s, 'a', true));
    int n = (int)choose(MAX + 1, "constants");
    s.add(n);
    long v[2]; Sig sn[2];
    for (int i = 0; i < n; i++) { VF_SYM(v[i], "value"); vf_assume((v[i] < 1l << 60) & (v[i] >= -(1l << 60))); e->addEnumValue(v[i], name(sn[i], 'a', false)); }
    int first = n == 2 && v[1] < v[0];      // constants are in the order of their values
    for (int i = 0; i < n; i++) { int k = i ^ first; s.add(v[k]); s.add(sn[k].v[0]); }
    return e;
  }
  case INCOMPLETE: {
    std::string n = name(s, 'a', false);
    unsigned k = choose(3, "+incomplete");
    s.add(k);
    if (k == 0) return std::make_shared<IncompleteType>(StructType(n, false), IncompleteType::Type::STRUCT);
    if (k == 1) return std::make_shared<IncompleteType>(UnionType(n, false), IncompleteType::Type::UNION);
    return std::make_shared<IncompleteType>(ClassType(n, false), IncompleteType::Type::CLASS);
  }
  default: {
    T r = simple(s);
    ReturnValue rv(r);
    declare(rv, s, true);
    Parameter::Vector p = parameters(s, MAX);
    return std::make_shared<FunctionType>(std::move(rv), std::move(p));
  }
  }
}
enum { NONE, PTR, REF, CST, TDEF, NWRAP };
static T chain[8];
static unsigned wrapOf[8];
static int nchain;
static T type(Sig &s, int depth, int maxFields, bool cst = true)
{
  unsigned w = depth ? choose(NWRAP, "+wrapper") : NONE;
  if (w == CST && !cst) vf_end_path();
  int me = nchain++;
  wrapOf[me] = w;
  T t;
  s.add(w);
  if (w == NONE) t = base(s, maxFields, choose(NBASE, "+base"));
  else if (w == PTR) t = std::make_shared<Pointer>(type(s, depth - 1, maxFields));
  else if (w == REF) t = std::make_shared<Reference>(type(s, depth - 1, maxFields));
  else if (w == CST) t = std::make_shared<ConstQualifiedType>(type(s, depth - 1, maxFields, false));
  else { std::string n = name(s, 'a', false); t = std::make_shared<TypedefType>(n, type(s, depth - 1, maxFields)); }
  chain[me] = t;
  return t;
}
template<typename X> static void compare(X &a, X &b, bool eq)
{
  int r = a == b, rev = b == a, ne = a != b, e = eq;
  vf_assert(r | !e, "two equal objects compare unequal");
  vf_assert(!r | e, "two different objects compare equal");
  vf_assert(rev == r, "equality depends on the order");
  vf_assert(ne == !r, "== and != contradict each other");
  vf_reach(r ? "equal" : "different");
}
template<typename X> static void hashes(X &a, X &b, bool eq)
{
  size_t ha = a.getHash(), hb = b.getHash();
  int r = ha == hb, e = eq;
  vf_assert(r | !e, "two equal objects have different hashes");
  vf_assert(!r | e, "a detail in which two objects differ is missing in their hashes");
  a.cacheHash();
  vf_assert(a.getHash() == ha, "caching the hash changes it");
  vf_assert(a.getHash() == ha, "the cached hash is not the hash");
}
template<typename X> static void check(X &a, X &b, const Sig &sa, const Sig &sb)
{
  bool eq = same(sa, sb);
  if (vf_choice(2, "check")) compare<const X>(a, b, eq);
  else hashes<X>(a, b, eq);
}
void vf_main(void)
{
#if MODE == 0      // any two types
  Sig sa, sb;
  T a = type(sa, DEPTH, 0);
  if (SAME) second();
  else nmade = nnamed = nflags = 0;
  nchain = 0;
  T b = type(sb, DEPTH, 0);
  check<TypeItf>(*a, *b, sa, sb);
#elif MODE == 1    // two structures or unions of the same kind
  Sig sa, sb;
  unsigned k = STRUCT + vf_choice(2, "kind");
  T a = base(sa, MAX, k);
  second();
  T b = base(sb, MAX, k);
  check<TypeItf>(*a, *b, sa, sb);
#elif MODE == 2    // two functions: ATTRS: their attributes, flags and namespaces, otherwise their parameters
  Sig s[2];
  std::shared_ptr<FunctionDeclaration> f[2];
  unsigned flagsOnly = vf_choice(2, "flags");
  for (int i = 0; i < 2; i++) {
    if (i) second();
    std::string n = name(s[i], 'a', false);
    T r = simple(s[i]);
    ReturnValue rv(r);
    declare(rv, s[i], !ATTRS);
    Parameter::Vector p = parameters(s[i], ATTRS ? 0 : MAX);
    std::shared_ptr<const Namespace> ns = getGlobalNamespace();
    int deep = ATTRS && !flagsOnly ? (int)choose(3, "namespaces") : 0;
    s[i].add(deep);
    for (int d = 0; d < deep; d++) ns = std::make_shared<const Namespace>(name(s[i], 'a', false), ns);
    f[i] = std::make_shared<FunctionDeclaration>(n, std::move(rv), std::move(p), ns, std::weak_ptr<const ComposableType>());
    int na = ATTRS && !flagsOnly ? (int)choose(2, "attributes") : 0;
    if (flagsOnly || MAX > 1) {
      f[i]->setVariadic(flag(s[i], "variadic"));
      f[i]->setInlined(flag(s[i], "inline"));
      f[i]->setIsStatic(flag(s[i], "static"));
      f[i]->setClassConst(flag(s[i], "const"));
      f[i]->setDoesThisDeclarationHasABody(flag(s[i], "body"));
      f[i]->setAccessSpecifier((FunctionAccessSpecifier)flag(s[i], "access", 4));
    }
    s[i].add(na);
    if (na) {
      std::string an = name(s[i], 'a', false);
      int np = (int)choose(MAX + 1, "values");
      s[i].add(np);
      FunctionAttribute::ParametersList l;
      for (int k = 0; k < np; k++) l.push_back(name(s[i], 'a', false));
      f[i]->addAttribute(FunctionAttribute(an, l));
    }
  }
  check<FunctionDeclaration>(*f[0], *f[1], s[0], s[1]);
#elif MODE == 3    // what a type consists of
  Sig s;
  T t = type(s, 3, 0);
  TypeItf *b = chain[nchain - 1].get();
  bool td = false;
  for (int i = 0; i < nchain; i++) td |= wrapOf[i] == TDEF;
  vf_assert(t->getRawType() == b, "the raw type is not the type under all pointers, references, qualifiers and typedefs");
  vf_assert(t->containsTypeDef() == td, "containsTypeDef() misses or invents a typedef");
  vf_assert(t->unqualify() == chain[wrapOf[0] == CST].get(), "unqualify() does not give the type under the qualifier");
  vf_assert(t->isConst() == (wrapOf[0] == CST), "isConst() is wrong");
  vf_assert(t->isQualified() == (wrapOf[0] == CST) && (t->asQualifiedType() != nullptr) == (wrapOf[0] == CST), "isQualified() is wrong");
  vf_assert(t->isPointer() == (wrapOf[0] == PTR) && (t->asPointer() != nullptr) == (wrapOf[0] == PTR), "isPointer() is wrong");
  vf_assert(t->isReference() == (wrapOf[0] == REF) && (((const TypeItf &)*t).asReference() != nullptr) == (wrapOf[0] == REF), "isReference() is wrong");
  vf_assert(t->isTypedDef() == (wrapOf[0] == TDEF) && (t->asTypedefType() != nullptr) == (wrapOf[0] == TDEF), "isTypedDef() is wrong");
  unsigned k = nchain == 1 ? (unsigned)s.v[1] - 10 : NBASE;
  vf_assert(t->isCType() == (k == CT) && (t->asCType() != nullptr) == (k == CT), "isCType() is wrong");
  vf_assert(t->isStruct() == (k == STRUCT || k == CLASS), "isStruct() is wrong");
  vf_assert(t->isUnion() == (k == UNION), "isUnion() is wrong");
  vf_assert(t->isEnum() == (k == ENUM) && (t->asEnum() != nullptr) == (k == ENUM), "isEnum() is wrong");
  vf_assert(t->isIncompleteType() == (k == INCOMPLETE) && (t->asIncompleteType() != nullptr) == (k == INCOMPLETE), "isIncompleteType() is wrong");
  vf_assert(t->isFunctionType() == (k == FUNCTION) && (t->asFunctionType() != nullptr) == (k == FUNCTION), "isFunctionType() is wrong");
  bool comp = k == STRUCT || k == UNION || k == CLASS;
  vf_assert(t->isComposableType() == comp && (t->asComposableType() != nullptr) == comp, "isComposableType() is wrong");
  if (wrapOf[0] == PTR) {
    int n = 1;
    while (wrapOf[n] == PTR) n++;
    vf_assert(t->asPointer()->getMostPointedType() == chain[n].get(), "getMostPointedType() is wrong");
    vf_assert(t->asPointer()->getPointedType() == chain[1].get(), "getPointedType() is wrong");
  }
  if (wrapOf[0] == TDEF) {
    int n = 1;
    while (wrapOf[n] == TDEF) n++;
    vf_assert(t->asTypedefType()->getMostDefinedTypee() == chain[n].get(), "getMostDefinedTypee() is wrong");
    vf_assert(t->asTypedefType()->getTypee() == chain[1].get(), "getTypee() is wrong");
  }
  vf_reach("views");
#elif MODE == 5    // changing a type which others, whose hash is cached, are made of
  T leaf[2], top[2];
  unsigned w[3], where = vf_choice(6, "place");
  for (unsigned &x : w) x = vf_choice(NWRAP, "wrapper");
  vf_assume((w[0] != CST) | (w[1] != CST));
  vf_assume((where != 0) | (w[1] != CST) | (w[2] != CST));
  for (int i = 0; i < 2; i++) {
    leaf[i] = std::make_shared<CType>(i ? CTYPE_UINT : CTYPE_INT);
    T t = leaf[i];
    auto wrap = [&](unsigned x) {
      if (x == PTR) t = std::make_shared<Pointer>(t);
      if (x == REF) t = std::make_shared<Reference>(t);
      if (x == CST) t = std::make_shared<ConstQualifiedType>(t);
      if (x == TDEF) t = std::make_shared<TypedefType>("t", t);
    };
    wrap(w[2]);
    ComposableType::ComposableFieldTypeVector fs;
    Parameter::Vector ps;
    // the declared strings stay as they were written
    if (where == 1) { ComposableField f(t, "f"); f.setDeclareString("t"); fs.emplace_back(std::move(f)); t = std::make_shared<StructType>("s", std::move(fs), false); }
    if (where == 2) { if (w[2]) vf_end_path(); ComposableBitfield f(t, "f", 3); f.setDeclareString("t"); fs.emplace_back(std::move(f)); t = std::make_shared<UnionType>("s", std::move(fs), false); }
    if (where == 3) { ReturnValue rv(t); rv.setDeclareString("t"); t = std::make_shared<FunctionType>(std::move(rv), std::move(ps)); }
    if (where == 4 || where == 5) {
      for (int k = 4; k <= (int)where; k++) { Parameter p(k == (int)where ? t : T(std::make_shared<CType>(CTYPE_LONG)), "p"); p.setDeclareString("t"); ps.push_back(std::move(p)); }
      t = std::make_shared<FunctionType>(ReturnValue(std::make_shared<CType>(CTYPE_LONG)), std::move(ps));
    }
    wrap(w[1]);
    wrap(w[0]);
    top[i] = t;
  }
  leaf[0]->cacheHash();
  top[0]->cacheHash();
  vf_assert(leaf[0]->asCType()->setUnsigned(true), "a change of sign is refused");
  top[0]->cacheHash();
  compare<const TypeItf>(*top[0], *top[1], true);
  hashes<TypeItf>(*top[0], *top[1], true);
#else              // changing a type of the language
  unsigned from = vf_choice(CTYPE_INVALID, "ctype");
  bool uns = vf_choice(2, "unsigned");
  CType c((easyMock_cTypes_t)from);
  c.cacheHash();
  // the type of the same width with the other sign
  static const int toUnsigned[][2] = {{CTYPE_CHAR, CTYPE_UCHAR}, {CTYPE_SCHAR, CTYPE_UCHAR}, {CTYPE_SHORT, CTYPE_USHORT}, {CTYPE_INT, CTYPE_UINT}, {CTYPE_LONG, CTYPE_ULONG}, {CTYPE_LONG_LONG, CTYPE_ULONG_LONG}, {CTYPE_INT128, CTYPE_UINT128}};
  static const int toSigned[][2] = {{CTYPE_UCHAR, CTYPE_SCHAR}, {CTYPE_USHORT, CTYPE_SHORT}, {CTYPE_UINT, CTYPE_INT}, {CTYPE_ULONG, CTYPE_LONG}, {CTYPE_ULONG_LONG, CTYPE_LONG_LONG}, {CTYPE_UINT128, CTYPE_INT128}};
  int to = -1;
  if (uns) { for (auto &x : toUnsigned) if (x[0] == (int)from) to = x[1]; }
  else { for (auto &x : toSigned) if (x[0] == (int)from) to = x[1]; }
  bool done = c.setUnsigned(uns);
  vf_assert(done == (to >= 0), "a change of sign is refused, or accepted where there is none");
  CType want((easyMock_cTypes_t)(to >= 0 ? to : (int)from));
  c.cacheHash();
  compare<const TypeItf>(c, want, true);
  hashes<TypeItf>(c, want, true);
  if (done) {
    vf_assert(c.setUnsigned(!uns), "a change of sign can not be undone");
    CType back((easyMock_cTypes_t)from);
    c.cacheHash();
    compare<const TypeItf>(c, back, true);
    hashes<TypeItf>(c, back, true);
  }
#endif
}
