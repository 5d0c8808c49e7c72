#!/usr/bin/env python3
"""Writes shapes/lay*.h and harness/gen/lay*{,_o,_g}.c: types which --generate-types must write out again.  The same readers
are compiled once against the original header and once against the generated one; the harness compares what they read.
Run after changing a table below; the results are committed."""
import os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V + "/tools")
from mkshapes import write
import mkcmp
from mkcmp import Agg, S, leaves, declare

S.update({
    "a3": ("arr3 %s", None), "col": ("enum color %s", None), "neg": ("enum neg %s", None), "inn": ("enum inner { JA = -2, JB } %s", None), "an": ("enum { IA, IB = 7 } %s", None), "innr": ("enum inner %s", None),
    "vp": ("volatile int *%s", None), "pv": ("int *volatile %s", None), "cvc": ("const volatile char %s", None), "ccc": ("const char *const %s", None), "cu": ("const unsigned int %s", None), "cpp": ("const char *const *%s", None), "vv": ("volatile void *%s", None),
    "en": ("en_t %s", None), "tg": ("tagged_t %s", None), "cb1": ("void (*%s)(struct eb, int *)", None), "cb2": ("pair_t *(*%s)(const struct at *, enum neg)", None), "cb3": ("void *(*%s)(void *(*)(int))", None),
    "cq": ("const pair2_t *%s", None), "u32c": ("const u32 %s", None), "u33": ("u33 %s", None), "ch": ("enum ch %s", None), "cbt": ("op_t %s", None), "hnd": ("handle %s", None), "by": ("unsigned char %s", None),
})
PRE2 = """typedef unsigned int u32;
typedef u32 u33;
typedef u32 arr3[3];
typedef arr3 arr3b;
enum color { RED, GREEN = 5, BLUE };
enum neg { NA = -5, NB, NC = 1000000 };
enum big { BA = 1, BB = 0x7fffffffffL };
enum bigneg { CA = -1, CB = 0x7fffffffffL, CC };
enum uns { UA = 0xffffffffu, UB = 1 };
enum ch { CHA = 'a', CHB = sizeof(long), CHC = CHA + CHB * 2, CHD = -CHC, CHE = CHA };
typedef enum { T0 = 'a', T1, T2 = T0 } en_t;
typedef enum tagged { G0 = 3, G1 } tagged_t;
typedef struct { short a; char b; } pair_t;
typedef pair_t pair2_t;
typedef pair2_t pairs[2];
typedef struct hidden *handle;
struct opaque;
struct at;
struct eb;
typedef int (*op_t)(struct opaque *, const struct at *);
"""
ENUMS = {"enum color": ["RED", "GREEN", "BLUE"], "enum neg": ["NA", "NB", "NC"], "enum big": ["BA", "BB"], "enum bigneg": ["CA", "CB", "CC"], "enum uns": ["UA", "UB"],
         "enum ch": ["CHA", "CHB", "CHC", "CHD", "CHE"], "en_t": ["T0", "T1", "T2"], "tagged_t": ["G0", "G1"], "enum inner": ["JA", "JB"], "int": ["IA", "IB"]}
pair = Agg("struct", None, "pair2_t", ("s", "a"), ("c", "b"))
pair.predeclared = True
class ArrTd(Agg):   # a member declared with the name of an array type
    pass
pairs = ArrTd("struct", None, "pairs", ("s", "a"), ("c", "b")); pairs.predeclared = True
eb = Agg("struct", "eb", None, ("col", "a", ":3"), ("neg", "b", ":21"), ("b", "c", ":1"), ("cu", "d", ":2"), ("c", "e"), ("uc", "f", ":3"), ("us", "g", ":9"), ("u33", "h", ":31"))
at = Agg("struct", "at", None, ("c", "x"), ("raw3", "arr3 a", "a", "u32", 3), ("raw3", "arr3b b", "b", "u32", 3), ("rawp", "pairs p", "p", 2), ("s", "y"), (pair, "q", 2), ("c", "z"))
cv = Agg("struct", "cv", None, ("ci", "a"), ("vs", "b"), ("cvc", "c"), ("ccc", "d"), ("vp", "e"), ("pv", "f"), ("cpp", "g"), ("u32c", "h"), ("vv", "i"), ("cpc", "j"))
ine = Agg("struct", "ine", None, ("an", "k"), ("inn", "j"), ("innr", "l"), ("i", "z"))
cbs = Agg("struct", "cbs", None, ("cb1", "a"), ("cb2", "b"), ("fn", "c", None), ("cb3", "d"), ("cbt", "e"), ("cbt", "f", 2), ("hnd", "g"))
tdp = Agg("struct", "tdp", None, ("en", "e"), ("tg", "t"), (pair, "p"), ("o", "o"), ("cq", "q"), ("ld", "ld"), ("i128", "i"), ("u128", "u"), ("b", "b"), ("ch", "ch"), ("u33", "v"), ("sc", "s"))
noname = Agg("struct", "noname", None, ("raw", "int :4"), ("u", "a", ":4"), ("raw", "int :0"), ("c", "b"), ("ull", "c", ":33"), ("i", "d", ":2"), ("l", "e", ":1"))
lflex = Agg("struct", "lflex", None, ("s", "n"), ("raw", "struct { short fa; char fb; } v[]"))
lflex2 = Agg("struct", "lflex2", None, ("c", "n"), ("raw", "double v[]"))
zero = Agg("struct", "zero", None, ("c", "n"), ("raw", "pair_t v[0]"))
deepu = Agg("union", "deepu", "deepu_t", ("emb", "struct", [("anon", "union", [("l", "q1"), ("by", "q2", 8)]), ("emb", "struct", [("c", "c"), ("raw", "int :7"), ("i", "bf", ":9")], "bits", 2)], "w"), ("d", "d"), (at, "at"))
LAYB = [eb, at, cv, ine, cbs, tdp, noname, lflex, lflex2, zero, deepu]
cbs.members = tuple(m if not (len(m) == 3 and m[2] is None) else m[:2] for m in cbs.members)


def xleaves(a):
    """leaves(), with the members declared through array typedefs expanded; (path, token, bit field)"""
    def pre(ms):
        out = []
        for m in ms:
            if m[0] == "raw3":
                out.append((m[3], m[2], m[4]))
            elif m[0] == "rawp":
                out.append((pair, m[2], m[3]))
            elif m[0] in ("anon",):
                out.append(("anon", m[1], pre(m[2])))
            elif m[0] == "emb":
                out.append(m[:2] + (pre(m[2]),) + m[3:])
            else:
                if isinstance(m[0], Agg):
                    c = Agg(m[0].kind, m[0].tag, m[0].td, *pre(m[0].members))
                    out.append((c,) + m[1:])
                else:
                    out.append(m)
        return out
    return [l[:3] for l in leaves(pre(a.members))]


def plain(ms):
    return tuple(("raw", m[1]) if m[0] in ("raw3", "rawp") else m for m in ms)


def ldecl(a):
    b = Agg(a.kind, a.tag, a.td, *plain(a.members))
    return "" if getattr(a, "predeclared", False) else declare(b)


def header(name, pre, aggs, extra):
    fs = "".join("void t_%d(%s%sa);\n" % (i, a.name, " " if i % 2 and a not in (lflex, lflex2, zero, mkcmp.flex) else " *") for i, a in enumerate(aggs))
    return "#ifndef %s_H\n#define %s_H\n%s%s%s%s#endif\n" % (name.upper(), name.upper(), pre, "".join(ldecl(a) for a in aggs), fs, extra)


def readers(name, aggs, enums):
    o = ["// Written by tools/mklay.py.  Readers of the types of shapes/%s.h." % name]
    w = o.append
    for i, a in enumerate(aggs):
        ls = xleaves(a)
        w("static unsigned long rd_%d(const void *p, int k, int what)\n{\n  %s *q = (%s *)p;\n  (void)q;\n  switch (k) {" % (i, a.name, a.name))
        for k, (path, t, bf) in enumerate(ls):
            if t in ("f", "d", "ld", "i128", "u128", "b") and not bf:
                w("  case %d: return what ? TYPE(q->%s) : bits(&q->%s, %d);" % (k, path, path, {"ld": 10, "i128": 16, "u128": 16, "f": 4, "d": 8, "b": 1}[t]))
            elif bf:
                w("  case %d: return what ? 0 : (unsigned long)q->%s;" % (k, path))
            else:
                w("  case %d: return what ? TYPE(q->%s) + 100 * sizeof(q->%s) : (unsigned long)q->%s;" % (k, path, path, path))
        w("  default: return k == -1 ? sizeof *q : (unsigned long)__alignof__(*q);\n  }\n}")
    w("static long enumerator(int k, int what)\n{\n  switch (k) {")
    k = 0
    for t, es in enums.items():
        for e in es:
            w("  case %d: return what == 0 ? (long)%s : what == 1 ? (long)sizeof(%s) : what == 2 ? (long)sizeof(%s) : ((%s)-1 < 0) + 2 * VTYPE(%s);" % (k, e, e, t, t, e))
            k += 1
    w("  default: return 0;\n  }\n}")
    w("const struct layout LAYOUT = { { %s }, enumerator };" % ", ".join("rd_%d" % i for i in range(len(aggs))))
    return "\n".join(o) + "\n"


def harness(name, aggs, enums):
    n = sum(len(e) for e in enums.values())
    s = '// Written by tools/mklay.py.  The types of shapes/%s.h as written out by --generate-types.\n#include "lay.h"\n' % name
    s += "static const int LEAVES[] = { %s };\n" % ", ".join(str(len(xleaves(a))) for a in aggs)
    s += "void vf_main(void)\n{\n  layouts(LEAVES, %d, %d);\n}\n" % (len(aggs), n)
    return s


HEADERS = {
    "laya": (mkcmp.PRE, [a for k in ("cmps", "cmpn") for a in mkcmp.HEADERS[k] if not (k == "cmpn" and a in mkcmp.HEADERS["cmps"])], {"enum color": ["RED", "GREEN", "BLUE"], "ab_t": ["AA", "BB"]}, ""),
    "layb": (PRE2, LAYB, ENUMS, "enum big e_1(enum bigneg a, enum uns b, struct hidden *h);\nen_t e_2(enum ch a, op_t b, handle c);\n"),
}


def main():
    for n, (pre, aggs, enums, extra) in HEADERS.items():
        write("shapes/%s.h" % n, header(n, pre, aggs, extra))
        write("harness/gen/%s.c" % n, harness(n, aggs, enums))
        write("harness/gen/%s_readers.h" % n, readers(n, aggs, enums))
        write("harness/gen/%s_o.c" % n, '#include "%s.h"\n#define LAYOUT original\n#include "layout.h"\n#include "%s_readers.h"\n' % (n, n))
        write("harness/gen/%s_g.c" % n, '#include "easyMock_%s.h"\n#define LAYOUT generated\n#include "layout.h"\n#include "%s_readers.h"\n' % (n, n))


if __name__ == "__main__":
    main()
