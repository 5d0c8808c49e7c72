#!/usr/bin/env python3
"""Writes shapes/cmps*.h and harness/gen/cmps*.c: headers whose generated comparators are checked, and the checks.
Run after changing a table below; the results are committed."""
import os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V + "/tools")
from mkshapes import write

# scalar kind: declaration, type for reading, printf conversion (None: the text of the value is not looked at), how it is made symbolic
S = {
    "c": ("char %s", "c"), "uc": ("unsigned char %s", "c"), "sc": ("signed char %s", None), "s": ("short %s", "hi"), "us": ("unsigned short %s", "hu"), "i": ("int %s", "d"),
    "u": ("unsigned int %s", "u"), "l": ("long %s", "li"), "ul": ("unsigned long %s", "lu"), "ll": ("long long %s", "lli"), "ull": ("unsigned long long %s", "llu"),
    "f": ("float %s", "f"), "d": ("double %s", "f"), "ld": ("long double %s", None), "b": ("_Bool %s", None), "i128": ("__int128 %s", None), "u128": ("unsigned __int128 %s", None),
    "u32": ("u32 %s", "u"), "ci": ("const int %s", "d"), "vs": ("volatile short %s", "hi"), "e": ("enum color %s", "d"), "et": ("ab_t %s", None),
    "p": ("int *%s", "p"), "o": ("struct opaque *%s", "p"), "cs": ("const char *%s", "p"), "v": ("void *%s", "p"), "fn": ("int (*%s)(int)", "p"), "pp": ("char **%s", "p"), "cpc": ("int *const %s", "p"), "cb": ("cb_t %s", "p"), "pt": ("pu32 %s", "p"),
    "rec": ("struct rec *%s", "p"), "pu": ("union u_plain *%s", "p"),
    "np": ("nodep %s", "p"), "cnp": ("cnodep %s", "p"), "cn": ("const nodep %s", "p"), "ep": ("eitherp %s", "p"), "hp": ("hiddenp %s", "p"), "h": ("hidden_t *%s", "p"), "col": ("colorp %s", "p"), "hv": ("handle %s", "p"),
    "npp": ("nodep *%s", "p"), "cbs": ("cbs_t %s", "p"), "pcb": ("cb_t *%s", "p"), "pfw": ("fwd_t *%s", "p"), "cs2": ("struct node *const %s", "p"), "ppc": ("const char *const *%s", "p"), "pw": ("struct wraps *%s", "p"),
    "u32c": ("u32c %s", "u"), "cu32": ("const u32 %s", "u"), "fl": ("flag %s", None), "colt": ("color_t %s", "d"), "ce": ("const enum color %s", "d"), "vu": ("volatile unsigned char %s", None), "i8": ("int8_t %s", None), "u64": ("uint64_t %s", "lu"), "sz": ("size_t %s", "lu"), "ip": ("intptr_t %s", "li"),
}
PRE = """typedef unsigned int u32;
typedef u32 *pu32;
typedef u32 arr3[3];
enum color { RED, GREEN = 5, BLUE };
typedef enum { AA, BB = -3 } ab_t;
typedef int (*cb_t)(int);
struct opaque;
union u_plain;
"""


class Agg:
    """kind: struct/union; tag or None; td: typedef name or None; members: see mem()."""
    def __init__(self, kind, tag, td, *members):
        self.kind = kind; self.tag = tag; self.td = td; self.members = members
        self.name = td or "%s %s" % (kind, tag)
        self.cmp = "cmp_" + (td or "%s_%s" % (kind, tag))


# members: (token, name) | (token, name, n) array | (token, name, ":w") bit field | (Agg, name[, n]) | ("emb", kind, members, name[, n]) | ("anon", kind, members) | ("raw", text)
def decl(ms, ind):
    out = []
    for m in ms:
        if m[0] == "raw":
            out.append(m[1])
        elif m[0] == "anon":
            out.append("%s {\n%s%s}" % (m[1], decl(m[2], ind + "  "), ind))
        elif m[0] == "tdarr":
            out.append("%s %s" % (m[1], m[3]))
        elif m[0] == "emb":
            out.append("%s {\n%s%s} %s%s" % (m[1], decl(m[2], ind + "  "), ind, m[3], "[%d]" % m[4] if len(m) > 4 else ""))
        else:
            d = m[0].name + " %s" if isinstance(m[0], Agg) else S[m[0]][0]
            suf = ""
            if len(m) > 2:
                suf = m[2] if isinstance(m[2], str) else "[%d]" % m[2]
            n = m[1] + suf
            if "(*" in d and suf:
                n = m[1] + suf
            out.append(d % n)
    return "".join(ind + "  " + x + ";\n" for x in out)


def declare(a):
    body = "{\n%s}" % decl(a.members, "")
    if a.td:
        return "typedef %s %s%s %s;\n" % (a.kind, a.tag + " " if a.tag else "", body, a.td)
    return "%s %s %s;\n" % (a.kind, a.tag, body)


# leaves: (path, token, bit field, suffix of the parameter name, field name, index or None, inside an array of aggregates, inside a union)
def leaves(ms, path="", suf="", many=False, un=False):
    for m in ms:
        if m[0] == "raw":
            continue
        if m[0] == "tdarr":
            m = (m[2], m[3], m[4])
        if m[0] == "anon":
            yield from leaves(m[2], path, suf, many, un or m[1] == "union")
        elif m[0] == "emb" or isinstance(m[0], Agg):
            name, sub, kind = (m[3], m[2], m[1]) if m[0] == "emb" else (m[1], m[0].members, m[0].kind)
            n = m[4] if m[0] == "emb" and len(m) > 4 else m[2] if m[0] != "emb" and len(m) > 2 else None
            if n is None:
                yield from leaves(sub, path + name + ".", suf + "." + name, many, un or kind == "union")
            else:
                for k in range(n):
                    yield from leaves(sub, "%s%s[%d]." % (path, name, k), suf + "." + name, True, un or kind == "union")
        elif len(m) > 2 and isinstance(m[2], int):
            for k in range(m[2]):
                yield ("%s%s[%d]" % (path, m[1], k), m[0], False, suf, m[1], k, many, un)
        else:
            yield (path + m[1], m[0], len(m) > 2, suf, m[1], None, many, un)


prim = Agg("struct", "prim", None, ("c", "c"), ("uc", "uc"), ("s", "s"), ("us", "us"), ("i", "i"), ("u", "u"), ("l", "l"), ("ul", "ul"), ("ll", "ll"), ("ull", "ull"), ("f", "f"), ("d", "d"), ("ld", "ld"), ("b", "b"))
pair = Agg("struct", None, "pair_t", ("s", "a"), ("c", "b"))
ptrs = Agg("struct", "ptrs", None, ("p", "p"), ("o", "o"), ("cs", "cs"), ("v", "v"), ("fn", "cb"), ("e", "e"), ("et", "et"), ("pp", "pp"), ("cb", "cb2"), ("pt", "pt"))
bitsy = Agg("struct", "bitsy", None, ("u", "a", ":3"), ("i", "b", ":5"), ("raw", "unsigned :0"), ("ul", "c", ":40"), ("uc", "d", ":1"), ("s", "tail"))
arrs = Agg("struct", "arrs", None, ("i", "a", 3), ("c", "s", 4), ("d", "d", 2), ("p", "p", 2), ("u32", "one", 1), ("s", "last"))
nest = Agg("struct", "nest", "nest_t", ("i", "x"), (pair, "y"), (arrs, "z"), ("l", "w"))
deep = Agg("struct", "deep", None, (nest, "n"), (bitsy, "bits"), ("c", "end"))
anon = Agg("struct", "anon", None, ("i", "x"), ("anon", "struct", [("s", "q1"), ("anon", "struct", [("c", "q2"), ("i", "q3", 2)])]), ("emb", "struct", [("c", "q"), ("i", "r", 2)], "in"), ("anon", "union", [("l", "al"), ("c", "ach")]))
sarr = Agg("struct", "sarr", None, (pair, "a", 3), (bitsy, "b"), ("us", "k"))
misc = Agg("struct", "misc", None, ("u32", "u32"), ("ci", "ci"), ("vs", "vs"), ("sc", "sc"), ("rec", "next"), ("cpc", "cp"), ("pu", "pu"))
uni = Agg("union", "uni", None, ("l", "l"), ("s", "s"), ("c", "c", 3))
unis = Agg("struct", "unis", None, ("i", "tag"), (uni, "u"), ("emb", "union", [("i", "i"), (pair, "p")], "v"), ("c", "z"))
rec = Agg("struct", "rec", None, ("i", "v"), ("rec", "next"), ("rec", "prev"))
bare = Agg("struct", "bare", None, ("c", "only"))
flex = Agg("struct", "flex", None, ("i", "len"), ("c", "b"), ("raw", "int data[]"))
byref = Agg("struct", "byref", "byref_t", ("i", "v"), ("s", "w", 2))
node = Agg("struct", "node", None, ("i", "v"), ("np", "next"))
either = Agg("union", "either", None, ("i", "i"), ("np", "p"))
tptr = Agg("struct", "tptr", None, ("np", "np"), ("cnp", "cnp"), ("cn", "cn"), ("ep", "ep"), ("hp", "hp"), ("h", "h"), ("col", "col"), ("hv", "hv"), ("npp", "npp"), ("cbs", "cbs"), ("pcb", "pcb"), ("pfw", "pfw"), ("cs2", "cs2"), ("ppc", "ppc"))
tarr = Agg("struct", "tarr", None, ("np", "a", 2), ("cbs", "f", 2), ("col", "c", 1), ("tdarr", "pair2", pair, "two", 2), ("tdarr", "arr3", "u32", "three", 3), ("tdarr", "nodes", "np", "n", 2), ("c", "end"))
tscal = Agg("struct", "tscal", None, ("u32c", "u"), ("cu32", "cu"), ("fl", "fl"), ("colt", "colt"), ("ce", "ce"), ("vu", "vu"), ("i8", "i8"), ("u64", "u64"), ("sz", "sz"), ("ip", "ip"))
tbits = Agg("struct", "tbits", None, ("e", "e", ":4"), ("b", "b", ":1"), ("u32", "u", ":7"), ("ll", "ll", ":64"), ("colt", "ct", ":3"), ("fl", "fl", ":1"), ("sc", "sc", ":2"), ("us", "us"))
thole = Agg("struct", "thole", None, ("raw", "struct {} none"), ("c", "c"), ("raw", "int zero[0]"), ("i", "i"))
fwd = Agg("struct", "fwd", None, ("s", "s"), ("pfw", "self"))
fwd.name, fwd.cmp = "fwd_t", "cmp_fwd_t"
clash_b = Agg("struct", "b", "a", ("i", "x"))
clash_a = Agg("struct", "a", None, (clash_b, "m"), ("s", "n"))
clash_c = Agg("struct", "c_d", None, ("i", "x"))
clash_d = Agg("struct", "c", "d_", ("l", "y"))
clash_e = Agg("struct", None, "e_", ("c", "x"))
clash_f = Agg("struct", "_e", None, ("s", "z"), ("c", "zz"))
inner = Agg("struct", "inner", None, ("pw", "owner"), ("i", "k"))
wraps = Agg("struct", "wraps", None, (inner, "in"), (inner, "more", 2), ("i", "z"))
emb2 = Agg("struct", "emb2", None, ("emb", "struct", [("i", "x"), ("s", "y")], "p"), ("emb", "struct", [("c", "x"), ("emb", "union", [("c", "y"), ("us", "z")], "p")], "q", 2), ("i", "x"))
tu = Agg("union", None, "tu_t", ("np", "p"), ("u32c", "u"), ("emb", "struct", [("c", "x"), ("c", "y")], "s"))
odd = Agg("struct", "odd", None, ("i", "idx"), ("s", "paramName", 2), ("c", "errorMessage"), ("l", "currentCall_val"), (pair, "expectedCall_val", 2), ("p", "currentCall_ptr"), ("e", "class"), ("us", "this", 3), ("u", "_1"), ("uc", "rv", ":3"), ("uc", "printf", ":2"))
PRET = """#include <stdint.h>
#include <stddef.h>
typedef struct node *nodep;
typedef const struct node *cnodep;
typedef union either *eitherp;
typedef struct hidden *hiddenp;
typedef struct hidden hidden_t;
typedef enum color *colorp;
typedef color_t_ color_t;
typedef void *handle;
typedef cb_t cbs_t;
typedef u32 u32b;
typedef u32b u32c;
typedef _Bool flag;
typedef nodep nodes[2];
typedef struct fwd fwd_t;
struct wraps;
""".replace("typedef color_t_", "typedef enum color")
AFTER = {"pair_t": "typedef pair_t pair2[2];\n"}
HEADERS = {
    "cmpt": [pair, node, either, tptr, tarr, tscal, tbits, thole, fwd, clash_b, clash_a, clash_c, clash_d, clash_e, clash_f, inner, wraps, emb2, tu],
    "cmps": [prim, pair, ptrs, bitsy, arrs, misc, rec, bare],
    "cmpn": [pair, arrs, bitsy, nest, deep, anon, sarr, uni, unis, flex, byref, odd],
}


def header(name, aggs):
    fs = "".join("void t_%d(%s%sa);\n" % (i, a.name, " *" if a in (flex, byref, fwd) else " ") for i, a in enumerate(aggs))
    return "#ifndef %s_H\n#define %s_H\n%s%s%s#endif\n" % (name.upper(), name.upper(), PRE + (PRET if name == "cmpt" else ""), "".join(declare(a) + (AFTER.get(a.name, "") if name == "cmpt" else "") for a in aggs), fs)


def test(a, i):
    ls = list(leaves(a.members))
    o = []
    w = o.append
    w("static void test_%d(void)\n{\n  %s a, e, *pa = &a, *pe = &e;" % (i, a.name))
    w("  int only = begin(%d);" % len(ls))
    w("  if (only < 0) { memset(&a, 0, sizeof a); memset(&e, 0, sizeof e);")
    w("    GARBAGE(a); GARBAGE(e);")
    if any(l[7] for l in ls):
        w("  } else { memset(&a, 0, sizeof a); memset(&e, 0, sizeof e); }")
    else:
        w("  } else { vf_symbolic(&a, sizeof a, \"same\"); memcpy(&e, &a, sizeof e); }")
    lines_any, lines_one = [], []
    for n, (path, t, bf, suf, fld, idx, many, un) in enumerate(ls):
        k = "LD" if t == "ld" else "BOOL" if t in ("b", "fl") and not bf else "BF" if bf else "VAL"
        if not un:
            if k in ("LD", "BOOL"):
                lines_any.append("    %s(a.%s); %s(e.%s);" % (k, path, k, path))
        lines_one.append("    case %d: ONE_%s(a.%s, e.%s, %s); break;" % (n, k if S[t][1] != "f" else "FLT", path, path, '"%s"' % S[t][1] if S[t][1] else '""'))
    w("  if (only < 0) {\n%s\n  } else switch (only) {\n%s\n  }" % ("\n".join(lines_any), "\n".join(lines_one)))
    if any(t in ("ld", "b", "fl") and not bf for _, t, bf, *_ in ls):
        w("  if (only >= 0) {\n%s\n  }" % "\n".join("    if (only != %d) { memset((void *)&a.%s, 0, sizeof a.%s); memset((void *)&e.%s, 0, sizeof e.%s); }" % (n, p, p, p, p) for n, (p, t, bf, *_) in enumerate(ls) if t in ("ld", "b", "fl", "f", "d") and not bf))
    elif any(t in ("f", "d") for _, t, *_ in ls):
        w("  if (only >= 0) {\n%s\n  }" % "\n".join("    if (only != %d) { memset((void *)&a.%s, 0, sizeof a.%s); memset((void *)&e.%s, 0, sizeof e.%s); }" % (n, p, p, p, p) for n, (p, t, *_) in enumerate(ls) if t in ("f", "d")))
    w("  static const struct leaf L[] = {\n%s\n  };" % ",\n".join('    {"%s", "%s", %d}' % (suf, fld, -1 if idx is None else idx) for _, _, _, suf, fld, idx, _, _ in ls))
    w("  unsigned char d[%d];" % len(ls))
    for n, (path, *_) in enumerate(ls):
        w("  d[%d] = a.%s != e.%s;" % (n, path, path))
    w("  int r = deref ? DEREF(%s)(&pa, &pe, name, buf) : %s(&a, &e, name, buf);" % (a.cmp[4:], a.cmp))
    w("  if (!verdict(r, d, %d)) return;" % len(ls))
    w("  for (int k = 0; k < %d; k++) if (named(&L[k])) {\n    int n = 0;\n    switch (k) {" % len(ls))
    for n, (path, t, bf, suf, fld, idx, many, un) in enumerate(ls):
        f = S[t][1]
        if f and not many:
            cast = "(%s)" % S[t][0].replace("%s", "").strip() if bf else ""
            w('      case %d: if (TEXT(%d)) n = snprintf(ref, sizeof ref, " value \'%%%s\', was expecting \'%%%s\'", %sa.%s, %se.%s); break;' % (n, 1 if f == "f" else 0, f, f, cast, path, cast, path))
    w("    }\n    shows(d[k], n);\n  }")
    w("  shown();\n}")
    return "\n".join(o) + "\n"


def harness(name, aggs):
    s = "// Written by tools/mkcmp.py.  Generated comparators of shapes/%s.h: verdict and message.\n" % name
    s += '#include "cmp.h"\n#ifndef GENTYPES\n#include "%s.h"\n#endif\n#include "easyMock_%s.h"\n' % (name, name)
    s += "".join(test(a, i) for i, a in enumerate(aggs))
    s += "void vf_main(void)\n{\n  switch (vf_choice(%d, \"type\")) {\n%s  }\n}\n" % (len(aggs), "".join("    case %d: test_%d(); break;\n" % (i, i) for i in range(len(aggs))))
    return s


def main():
    for n, aggs in HEADERS.items():
        write("shapes/%s.h" % n, header(n, aggs))
        write("harness/gen/%s.c" % n, harness(n, aggs))


if __name__ == "__main__":
    main()
