from vlib.runner import Harness as H, REPO
import glob
import os
INC = "-I" + os.path.dirname(os.path.dirname(os.path.abspath(__file__))) + "/harness"
FWC = "src/easyMockFramework/src/"
CS = [FWC + "cstring.c"]
MF = [FWC + "MockedFunction.c"]
EM = [FWC + "easyMock.cpp"]
GL = [FWC + "easyMock_glueStdlib.c"]
MA = [FWC + "easyMock_matcher.cpp"]
ALLFW = CS + MF + EM + GL + MA

PROPS = {}


def prop(pid, harnesses, note="", assumptions=()):
    PROPS[pid] = {"harnesses": harnesses, "note": note, "assumptions": list(assumptions)}


CORE = ("shapes/core.h", [])
def longnames(name, mask, ops, k, tk, defs=(), **kw):
    hs = core(name, mask, ops, k, tk, list(defs) + ["LONGNAMES"], gen=("shapes/core_longnames.h", []), **kw)
    for h in hs:
        h.bounds += "; names of 260 characters which differ in the last one"
    return hs
VERDICT, MATCH, UNEXP, ORD, RESET, LOG = 1, 2, 4, 8, 16, 32


def core(name, mask, ops, k, tk, defs=(), split=False, gen=CORE, src="core.c", **kw):
    """Histories of k operations (tk in the thorough tier); split: one harness per first operation."""
    out = []
    for first in (ops if split else [None]):
        d = ["PROPMASK=%d" % mask, "OPLIST=" + ",".join(ops)] + list(defs) + (["FIRST=" + first] if first else [])
        b = "every history of %d operations (thorough: %d) drawn from %s%s, all argument, expected, return and output values symbolic" % (k, tk, "/".join(ops), " starting with " + first if first else "")
        out.append(H(name + ("_" + first if first else ""), src, ALLFW, defs=d + ["K=%d" % k], tdefs=d + ["K=%d" % tk], gen=gen, bounds=b, **kw))
    return out


def long(name, mask, ops, defs=(), k=2, tk=3, lengths=(9, 17, 33, 70, 130, 270), tlengths=(6, 7, 8, 9, 10, 12, 17, 20, 33, 40, 65, 101, 129, 200, 250, 257, 700), **kw):
    """A long prefix of concrete values, then k arbitrary operations with symbolic values."""
    hs = core(name, mask, ops, k, tk, list(defs) + ["LONG={%s}" % ",".join(map(str, lengths))], reach=["long"], **kw)
    for h in hs:
        h.tdefs = [x if not x.startswith("LONG=") else "LONG={%s}" % ",".join(map(str, tlengths)) for x in h.tdefs]
        h.bounds = "prefixes of %s (thorough: %s) expectations and calls of one or three functions, of calls only or of calls with other values, above 250: 5 expectations, then the calls; then " % ("/".join(map(str, lengths)), "/".join(map(str, tlengths))) + h.bounds
    return hs


prop("C01", core("verdict", VERDICT, ["EF", "CF", "EB", "CB", "INIT"], 5, 6, ["MATCHA"], split=True)
     + core("verdict_check", VERDICT, ["EF", "CF", "EB", "CB", "CHECK"], 4, 6, ["MATCHA"], reach=["check-ok", "check-fails", "count-mismatch"])
     + core("verdict_baz", VERDICT, ["EZ", "CZ", "INIT", "TOGGLE"], 4, 6, reach=["check-ok", "check-fails"])
     + long("verdict_long", VERDICT, ["EF", "CF", "EB", "CB"])
     + longnames("verdict_names", VERDICT, ["EF", "CF", "EB", "CB"], 4, 5, ["MATCHA"])
     + core("verdict_reject", VERDICT, ["EF", "CF", "EZ", "CZ"], 4, 5, ["ANYREJECT", "MATCHA"], reach=["check-ok", "check-fails"])
     + core("verdict_stack", VERDICT, ["EF", "CF", "CHECK"], 3, 4, ["CALLSTACK"]))
prop("C02", core("match", MATCH, ["EF", "CF"], 5, 7, reach=["matched", "mismatch", "clean-call"])
     + core("match_reject", MATCH, ["EF", "CF"], 4, 5, ["ANYREJECT"], reach=["matched", "mismatch", "clean-call"])
     + core("match_out", MATCH, ["EZ", "CZ", "EF", "CF"], 5, 6, ["MATCHA"], reach=["matched", "mismatch", "clean-call"])
     + long("match_long", MATCH, ["EF", "CF", "EZ", "CZ"])
     + longnames("match_names", MATCH, ["EF", "CF", "EZ", "CZ"], 4, 5, ["MATCHA"], reach=["matched", "mismatch"])
     + core("match_init", MATCH, ["EZ", "CZ", "INIT"], 5, 6))
prop("C03", core("unexpected", UNEXP, ["EF", "CF", "EB", "CB"], 6, 7, ["NOMATCH"], reach=["unexpected", "clean-call"])
     + core("unexpected_out", UNEXP, ["EZ", "CZ", "INIT"], 5, 7, ["CALLSTACK"], reach=["unexpected"])
     + long("unexpected_long", UNEXP, ["EF", "CF", "EB", "CB"], ["NOMATCH"])
     + longnames("unexpected_names", UNEXP, ["EF", "CF", "EZ", "CZ"], 4, 5, ["NOMATCH"], reach=["unexpected"])
     + core("unexpected_order", UNEXP, ["EF", "CF", "EB", "CB", "TOGGLE"], 5, 6, ["NOMATCH", "ORDER"]))
prop("C04", core("order", ORD, ["EF", "CF", "EB", "CB"], 6, 7, ["ORDER", "NOMATCH"], reach=["order-error", "clean-call", "unexpected"])
     + core("order_toggle", ORD, ["EF", "CF", "EB", "CB", "TOGGLE"], 5, 6, ["NOMATCH"], reach=["order-error", "clean-call"])
     + core("order_check", ORD, ["EF", "CF", "EB", "CB", "CHECK"], 4, 6, ["ORDER", "NOMATCH"], reach=["order-error"])
     + long("order_long", ORD, ["EF", "CF", "EB", "CB"], ["ORDER", "NOMATCH"])
     + longnames("order_names", ORD, ["EF", "CF", "EB", "CB"], 4, 6, ["ORDER", "NOMATCH"], reach=["order-error"])
     + core("order3", ORD, ["EF", "CF", "EB", "CB", "EZ", "CZ", "INIT"], 4, 5, ["ORDER", "MATCHA"]))
prop("C05", core("reset", RESET | VERDICT | UNEXP | MATCH, ["EF", "CF", "EB", "CB"], 4, 5, ["TWICE=3", "MATCHA"], reach=["steady"])
     + core("reset_out", RESET | VERDICT | UNEXP | MATCH, ["EZ", "CZ", "CHECK", "TOGGLE"], 3, 4, ["TWICE=3"], reach=["steady"])
     + longnames("reset_names", RESET | VERDICT | UNEXP | MATCH, ["EF", "CF", "EB", "CB"], 3, 4, ["TWICE=3", "NOMATCH", "ORDER"], reach=["steady"])
     + core("reset_stack", RESET | VERDICT | UNEXP | MATCH, ["EF", "CF"], 3, 4, ["TWICE=3", "CALLSTACK"], reach=["steady"])
     + long("reset_long", RESET | VERDICT | UNEXP | MATCH, ["EF", "CF", "EB", "CB"], ["TWICE=3", "NOMATCH"])
     + core("reset_any", RESET | VERDICT | UNEXP | MATCH | ORD, ["EF", "CF", "EB", "CB", "INIT"], 4, 5, ["NOMATCH", "ORDER"]))
prop("C09", [
    H("cstring_append", "cstring_append.c", CS, bounds="three strings, every character symbolic; lengths around 0, 128 and the 256-byte representation switch", reach=["long", "255", "256"]),
    H("cstring_big", "cstring_append.c", CS, defs=["BIG=66000", "LENS1={255,66000}", "LENS2={4096}", "LENS3={1,66000}"], steps=200000000, bounds="three strings of 1 to 66000 characters, of which the first and last four are symbolic", reach=["long"]),
    H("cstring_nomem", "cstring_append.c", CS, defs=["FAILING", "LENS1={0,3,255,256}", "LENS2={0,128,255,256}"], bounds="any one of the allocations fails", reach=["exit-after-allocation-failure"]),
    H("cstring_cmp", "cstring_cmp.c", CS, bounds="strings of up to 4 symbolic bytes, alone or after 254 equal bytes", reach=["less", "greater", "equal"], tdefs=["K=8"]),
])

MB = {1: "char to int", 2: "unsigned int, long, unsigned long", 3: "long long, unsigned long long, pointer", 4: "float, double, long double: every valid bit pattern",
      5: "float, double, long double: boundary values, exact text", 6: "128-bit integers, exact text", 8: "128-bit integers", 9: "strings of up to 3 symbolic bytes, alone or after 250 or 300 equal bytes"}


def matchers(mask, groups, exact):
    out = []
    for g in groups:
        d = ["PROPMASK=%d" % mask, "GROUP=%d" % g, "K=3"] + (["SHORTNAME"] if exact else ["BOUNDS"] if g != 9 else [])
        out.append(H("matcher%d%s" % (g, "_exact" if exact else ""), "matchers.c", MA + GL, defs=d, bounds=MB[g] + ("; parameter name of 3 characters, every digit of the text symbolic" if exact else "; parameter names of 0, 1, 4, 254 and 300 symbolic characters"), reach=["rejected"] if g == 6 else ["accepted", "rejected"], solver_ms=30000))
    return out


prop("C11", matchers(1, [1, 2, 3, 4, 5, 8, 9], False))
prop("C12", matchers(2, [1, 2, 3, 4, 8, 9], False) + matchers(2, [1, 2, 3, 5, 6], True))

prop("C06", [
    H("errors", "errors.c", ALLFW, defs=["K=2"], tdefs=["K=3"], bounds="2 reported errors (thorough: 3), inits and reads in between; strings of 0, 1, 2, 15 and 260 symbolic characters", reach=["percent"]),
    H("errors_big", "errors.c", ALLFW, defs=["K=1", "BIG=66000"], tdefs=["K=2", "BIG=66000"], bounds="one reported error (thorough: two) with strings of 1023 and 66000 characters of which the first and last four are symbolic", reach=["percent"]),
] + long("log_long", LOG, ["EF", "CF", "INIT", "CHECK"], ["MATCHA"])
     + longnames("log_names", LOG, ["EF", "CF", "EB", "CB", "CHECK"], 3, 4, ["MATCHA", "ORDER"], reach=["unexpected", "mismatch", "count-mismatch"])
     + core("log", LOG, ["EF", "CF", "EB", "CB", "CHECK", "INIT"], 4, 5, ["MATCHA", "CALLSTACK"], reach=["unexpected", "mismatch", "count-mismatch"]))
prop("C07", [
    H("queue", "mfunc.c", ALLFW, defs=["OVER"], bounds="data of 1, 7, 8 and 301 symbolic bytes; 0, 1, 2, 255 and 256 expectations; none, one less, as many and one more call; the 257th expectation", reach=["end", "exit-capacity", "count-mismatch"],
      tdefs=["OVER", "COUNTS={0,1,2,3,7,63,127,128,254,255,256}", "SIZES={1,2,3,4,7,8,16,301}"]),
    H("queue_big", "mfunc.c", ALLFW, defs=["BIG=65543", "SIZES={4096,65536,65543}", "COUNTS={1,2,3}"], bounds="data of 4096, 65536 and 65543 bytes, of which the first and last 8 are symbolic; 1 to 3 expectations", reach=["end", "count-mismatch"]),
    H("queue_nomem", "mfunc.c", ALLFW, defs=["FAILING", "COUNTS={1,2,6}"], bounds="the first, second or sixth allocation fails", reach=["exit-no-memory", "end"]),
])
prop("C08", [H("register", "register.c", ALLFW, defs=["K=4"], tdefs=["K=6"], bounds="every sequence of 4 (thorough: 6) registrations and unregistrations of three headers, any verdict of each", reach=["ok", "fails"]),
             H("register_many", "register.c", ALLFW, defs=["K=1", "MANY=40"], tdefs=["K=2", "MANY=40"], bounds="40 headers, of names which repeat, any one (thorough: two) of them unregistered and any one failing", reach=["end"])])
prop("C10", [H("glue", "glue.c", GL, bounds="copies of 0 to 513 symbolic bytes; three formats, destination sizes 0 to 300, strings of up to 5 symbolic characters", reach=["copy", "format"]),
             H("glue_big", "glue.c", GL, defs=["BIG=65600"], bounds="copies of 4096 to 65592 bytes, of which the ends and what is around them are symbolic", reach=["copy"])])

prop("C14", [H("backtrace", "backtrace.c", ALLFW, bounds="up to 2 stack frames, every combination of answers of the stack walking and debug information services, file names of up to 4 symbolic characters", reach=["frame"]),
             H("backtrace_deep", "backtrace.c", ALLFW, defs=["DEEP"], bounds="up to 300 stack frames about which everything is known, file names of up to 1050 characters of which the last is symbolic", reach=["frame"])])



def mock(name, what, **kw):
    return H(name, "gen/%s.c" % name, ALLFW, gen=("shapes/%s.h" % name, []), incs=[INC], reach=["accepted", "rejected"], bounds="the mocks of %s: two expectations, then two calls, every value, verdict of the matchers and return value symbolic" % what, **kw)


prop("G01", [mock("scalars", "21 functions over all arithmetic types"), mock("composed", "11 functions over structures, unions, bit fields and enumerations by value"),
             mock("pointers", "14 functions over pointers, arrays, function pointers"), mock("spelling", "16 spellings of declarations"), mock("spellret", "31 spellings of what surrounds the type of a function"), mock("apis", "14 declarations with the macros that libraries use, unnamed parameters and argument lists"), mock("names", "28 functions and parameters with unusual names: underscores, words of C++ and of the mock itself"), mock("wide", "20 functions with many parameters, long names, chains of typedefs, large values"),
             mock("system", "20 functions over types of the C library and POSIX (18 headers)"), mock("homonyms", "20 functions over tags and typedef names which are alike, types which refer to each other, comments inside declarations")])
prop("G03", [H("outs", "gen/outs.c", ALLFW, gen=("shapes/outs.h", []), incs=[INC], reach=["plain", "output"], bounds="15 functions with one to four pointer parameters, every choice of outputs, all bytes symbolic"),
             H("outswide", "gen/outswide.c", ALLFW, gen=("shapes/outswide.h", []), incs=[INC], reach=["plain", "output"], bounds="12 functions with up to six outputs, of incomplete types, through typedefs, of pointers; every choice of outputs, all bytes symbolic")]
     + [H(n + "_huge", "gen/%s.c" % n, ALLFW, defs=["HUGE_OUT"], gen=("shapes/%s.h" % n, []), incs=[INC], reach=["output"], bounds="the same functions, every output given, those of void pointers of 5 and 65573 bytes; the first and last 64 bytes around source and destination symbolic") for n in ("outs", "outswide")])


def cmps(values):
    out = []
    for n, what in (("cmps", "8 structures of scalars, pointers, bit fields, enumerations and arrays"), ("cmpn", "12 structures and unions with nested, anonymous, embedded and repeated members"), ("cmpt", "19 structures and unions with typedef'd, forward-declared, homonymous and mutually dependent members")):
        for gt in (False, True):
            out.append(H(n + ("_values" if values else "") + ("_gentypes" if gt else ""), "gen/%s.c" % n, ALLFW, defs=["VALUES=%d" % values] + (["NARROW"] if n != "cmps" else []) + (["GENTYPES"] if gt else []), tdefs=["VALUES=%d" % values] + (["GENTYPES"] if gt else []),
                         gen=("shapes/%s.h" % n, ["--generate-comparator-of", "EasyMock_all_comparators"] + (["--generate-types"] if gt else [])), incs=[INC],
                         reach=["accepted", "rejected"] + (["shown"] if values else []), bounds="generated comparators of %s%s; %s" % (what, " (as generated by --generate-types)" if gt else "", "one field arbitrary (structures with nested members: any byte) in one object and one of two values in the other, all other fields equal" if values else "every bit of both objects symbolic; parameter names of 3 and 300 characters")))
    return out


prop("G04", cmps(0) + [H("cmpbig", "cmpbig.c", ALLFW, gen=("shapes/cmpbig.h", ["--generate-comparator-of", "EasyMock_all_comparators"]), incs=[INC], steps=200000000, reach=["accepted", "rejected"],
                          bounds="the comparators of a structure with arrays of 300 integers, 70000 characters and 260 structures, and of a union with an array of 257 integers; all is equal but for one of 14 elements, both values of which are symbolic")])
prop("G05", cmps(1))


def lay(name, what):
    return H(name, "gen/%s.c" % name, ALLFW, parts=["gen/%s_o.c" % name, "gen/%s_g.c" % name], gen=("shapes/%s.h" % name, ["--generate-types"]), incs=[INC], reach=["object", "enumerators"],
             bounds="%s; every bit of an object of each type symbolic, read through the original and through the generated types" % what)


prop("G06", [lay("laya", "16 structures and unions of scalars, pointers, bit fields, arrays, nested, anonymous and embedded members"),
             lay("layb", "11 types with enumeration, const and volatile members, bit fields, array typedefs, callbacks, flexible arrays; 10 enumerations"),
             H("layhuge", "layhuge.c", ALLFW, parts=["gen/layhuge_o.c", "gen/layhuge_g.c"], gen=("shapes/layhuge.h", ["--generate-types"]), incs=[INC], reach=["object"],
               bounds="structures and a union with arrays of up to 5000000000 elements and an enumeration with constants of 64 bits; the elements read are symbolic")]
     + [H(n + "_gentypes", "gen/%s.c" % n, ALLFW, defs=["GENTYPES"], gen=("shapes/%s.h" % n, ["--generate-types"]), incs=[INC], bounds="the mocks of %s, used with the generated types only" % n) for n in ("composed", "pointers", "spelling", "spellret", "apis", "names", "outs", "wide", "homonyms")])
COMMON_ASSUMPTIONS = [
    "nothing is claimed beyond the bounds of each harness",
]
GN = "src/easyMockGenerate/src/"
CL = [GN + "CmdLineParser/CmdLineParser.cpp"]
LINEB = "%s; every value symbolic (first word 1, further words 2 characters), any kind of file at the two paths"
prop("P01", [
    H("line", "cmdline.cpp", CL, defs=["MODE=0", "NW=2"], tdefs=["MODE=0", "NW=3"], thorough=3000, shim=True, symdefs=["VF_CONST_HASH"], reach=["accepted", "help", "error", "extra"], bounds=LINEB % "command lines of -i, -o and 2 (thorough: 3) further options or arguments in any order"),
    H("many", "cmdline.cpp", CL, defs=["MODE=2", "NW=20"], tdefs=["MODE=2", "NW=27"], shim=True, symdefs=["VF_CONST_HASH"], steps=200000000, reach=["accepted", "error", "extra"], bounds="command lines of -i, -o and 20 (thorough: 27) times one option or argument, with words of 8, 256 and 5000 characters, or one word which is an option without its last or with one more character; any kind of file at the two paths"),
    H("words", "cmdline.cpp", CL, defs=["MODE=1", "NW=3"], tdefs=["MODE=1", "NW=4"], thorough=3000, shim=True, symdefs=["VF_CONST_HASH"], reach=["accepted", "help", "error", "extra"], bounds=LINEB % "any 3 (thorough: 4) words, each one of the 14 options or any other text, alone or after -i and -o"),
])
TOOL = CL + [(GN + "main.cpp", ["main=easymock_main"])] + [GN + x for x in ("MainCodeGenerator.cpp", "CodeGeneratorItf.cpp", "ElementToMockContext.cpp", "MacroDefinition.cpp")]
prop("P02", [
    H("tool", "maintool.cpp", TOOL, defs=["MODE=0", "NW=1"], tdefs=["MODE=0", "NW=2"], thorough=3000, shim=True, symdefs=["VF_CONST_HASH"], wraps=["chdir", "stat"], reach=["generated", "failed", "help"], bounds=LINEB % "command lines of -i, -o and 1 (thorough: 2) further options or arguments in any order; any verdict of chdir, the parser and the generator"),
    H("tool_words", "maintool.cpp", TOOL, defs=["MODE=1", "NW=2"], tdefs=["MODE=1", "NW=3"], thorough=3000, shim=True, symdefs=["VF_CONST_HASH"], wraps=["chdir", "stat"], reach=["generated", "failed", "help"], bounds=LINEB % "any 2 (thorough: 3) words, each one of the 14 options or any other text, alone or after -i and -o"),
])
MODEL = [GN + os.path.basename(f) for f in sorted(glob.glob(REPO + "/" + GN + "*.cpp")) if os.path.basename(f) not in ("main.cpp", "MainCodeGenerator.cpp", "PrintObjects.cpp")]
GENSRC = [GN + "CTemplateGenerator/CodeGeneratorCTemplate.cpp"] + MODEL
TYPESH = dict(shim=True, streams=False, symincs=["rt/shimhash"])
prop("G12", [
    H("types_any", "types.cpp", MODEL, defs=["MODE=0", "DEPTH=1", "SAME=0", "LEAN=1"], reach=["equal", "different"], bounds="any two types of a base under at most one wrapper, of one another's shape or not; bases: types of the language, structures, unions, classes, enumerations, incomplete types, functions, all without members; wrappers: pointer, reference, const, typedef; every name symbolic", **TYPESH),
    H("types_deep", "types.cpp", MODEL, defs=["MODE=0", "DEPTH=2", "SAME=1", "LEAN=1"], tdefs=["MODE=0", "DEPTH=3", "SAME=1", "LEAN=1"], thorough=3000, reach=["equal", "different"], bounds="two types under at most 2 (thorough: 3) wrappers, the second like the first, or with any one choice of the shape, one name or all flags different; every name symbolic", **TYPESH),
    H("types_base", "types.cpp", MODEL, defs=["MODE=0", "DEPTH=0", "SAME=1"], tdefs=["MODE=0", "DEPTH=0", "SAME=1", "MAX=2"], thorough=3000, reach=["equal", "different"], bounds="two types of the language, structures, unions, classes, enumerations, incomplete types, functions with at most 1 (thorough: 2) constants or parameters, the second like the first, or with any one choice, one name or all flags different; every name, value and flag symbolic", **TYPESH),
    H("types_fields", "types.cpp", MODEL, defs=["MODE=1"], tdefs=["MODE=1", "MAX=2"], thorough=3000, reach=["equal", "different"], bounds="two structures or two unions of at most 1 (thorough: 2) members, which are plain (named or not, with a declared text or not), arrays or bit fields; the second like the first, or with any one choice, one name or all flags different; names, sizes and widths symbolic", **TYPESH),
    H("types_prototypes", "types.cpp", MODEL, defs=["MODE=2", "ATTRS=0"], tdefs=["MODE=2", "ATTRS=0", "MAX=3"], thorough=3000, reach=["equal", "different"], bounds="two functions of at most 1 (thorough: 3) parameters, flags all symbolic; the second like the first, or with any one choice, one name or all flags different", **TYPESH),
    H("types_functions", "types.cpp", MODEL, defs=["MODE=2", "ATTRS=1"], tdefs=["MODE=2", "ATTRS=1", "MAX=2"], thorough=3000, reach=["equal", "different"], bounds="two functions in up to 2 namespaces, with at most one attribute of at most 1 (thorough: 2) values, or with all flags symbolic; the second like the first, or with any one choice, one name or all flags different", **TYPESH),
    H("types_views", "types.cpp", MODEL, defs=["MODE=3", "LEAN=1"], reach=["views"], bounds="types of a base under every chain of at most 3 wrappers", **TYPESH),
    H("types_cached", "types.cpp", MODEL, defs=["MODE=5"], reach=["equal"], bounds="an int whose sign changes below up to three wrappers and a member, bit field, return value or first or second parameter, after the hashes were cached", **TYPESH),
    H("types_sign", "types.cpp", MODEL, defs=["MODE=4"], reach=["equal"], bounds="every type of the language, made signed or unsigned and back", **TYPESH),
])
FILEW = ["fopen", "fclose", "fflush", "ferror", "fwrite", "fputs", "fputc", "fprintf"]
prop("P03", [
    H("files", "genfiles.cpp", GENSRC, defs=["MAYFAIL=0"], shim=True, streams=False, wraps=FILEW, reach=["written"], bounds="headers with and without directory, extension and further dots in their name, of symbolic characters; generated texts of 0, 1 and 14 characters; C and C++"),
    H("files_big", "genfiles.cpp", GENSRC, defs=["MAYFAIL=0", "BIG=66000"], shim=True, streams=False, wraps=FILEW, steps=100000000, reach=["written"], bounds="a C mock of generated texts of 4096 and 66000 characters, which come in three pieces, of which the first and last four characters are symbolic"),
    H("files_failing", "genfiles.cpp", GENSRC, defs=["MAYFAIL=1"], shim=True, streams=False, wraps=FILEW, reach=["written", "failed"], bounds="the same, and every opening, writing and closing of a file may fail"),
])
CORE3 = (("shapes/core.header-of-a-module-with-a-rather-long-name_1.h", "shapes/core.header-of-a-module-with-a-rather-long-name_2.h", "shapes/core-three.h"), [])
prop("G11", core("headers", VERDICT | UNEXP | MATCH, ["EF", "CF", "EB", "CB", "INIT", "CHECK"], 5, 6, ["MATCHA", "HEADERS3"], gen=CORE3, reach=["check-ok", "check-fails", "unexpected"])
     + core("headers_order", ORD, ["EF", "CF", "EB", "CB"], 6, 7, ["ORDER", "NOMATCH", "HEADERS3"], gen=CORE3, reach=["order-error"])
     + long("headers_long", VERDICT | UNEXP | MATCH | ORD, ["EF", "CF", "EB", "CB"], ["NOMATCH", "ORDER", "HEADERS3"], gen=CORE3)
     + core("headers_out", VERDICT | MATCH, ["EZ", "CZ", "EF", "CF", "CHECK"], 4, 5, ["HEADERS3"], gen=CORE3)
     + core("headers_reset", RESET | VERDICT | UNEXP | MATCH, ["EZ", "CZ", "EB", "CB"], 3, 4, ["TWICE=3", "HEADERS3"], gen=CORE3, reach=["steady"]))
CORECPP = dict(gen=("shapes/core_cpp.h", ["--mock-cpp"]), src="core_cpp.cpp", cpp=True)
prop("G10", core("cpp", VERDICT | UNEXP | MATCH | LOG, ["EF", "CF", "EB", "CB", "INIT"], 5, 6, ["MATCHA"], reach=["check-ok", "check-fails", "unexpected"], **CORECPP)
     + long("cpp_long", VERDICT | UNEXP | MATCH | LOG | ORD, ["EF", "CF", "EB", "CB"], ["NOMATCH", "ORDER"], **CORECPP)
     + core("cpp_out", VERDICT | MATCH | LOG, ["EZ", "CZ", "EF", "CF", "CHECK"], 4, 5, **CORECPP)
     + core("cpp_order", ORD, ["EF", "CF", "EB", "CB"], 5, 6, ["ORDER", "NOMATCH"], reach=["order-error"], **CORECPP)
     + core("cpp_reset", RESET | VERDICT | UNEXP | MATCH, ["EF", "CF", "EZ", "CZ"], 3, 4, ["TWICE=3", "MATCHA"], reach=["steady"], **CORECPP))
prop("G09", [H("cpp", "gen/cpp.cpp", ALLFW, gen=("shapes/cpp.h", ["--mock-cpp"]), cpp=True, reach=["accepted", "rejected", "output"], bounds="the C++ mocks of 11 methods of a class, 15 functions with values, references, pointers, enumerations and structures, 2 with C linkage, 5 in namespaces: two expectations, then two calls; every value, verdict, object and return value symbolic"),
             H("cppwide", "gen/cppwide.cpp", ALLFW, gen=("shapes/cppwide.h", ["--mock-cpp"]), cpp=True, reach=["accepted", "rejected", "own", "defined", "in-order"], bounds="the C++ mocks of methods and functions with the same name in 5 classes, structures and unions, 4 namespaces and 3 overloads, virtual methods, const pointers, references to pointers, unions, callbacks, up to 7 parameters: two expectations, then two calls; every value, verdict and return value symbolic; every order of two of 9 of them"),
             H("cppown", "gen/cppown.cpp", ALLFW, gen=("shapes/cppown.h", ["--mock-cpp"]), cpp=True, reach=["accepted", "rejected", "unexpected", "gone"], bounds="the C++ mocks of 6 functions and methods with by-value parameters and return values of a class which owns a heap block, and of a structure with such a member: one or two expectations and calls, expectations and calls too many; every value and verdict symbolic")])
prop("C13", [H("cppcmp", "cppcmp.cpp", ALLFW, cpp=True, reach=["accepted", "rejected"], bounds="all values of 7 integer types, characters, references and pointers to two objects, strings of up to 2 symbolic characters, a class with its own comparison; parameter names of 0 and 3 symbolic characters"),
             H("cppcmp_text", "cppcmp.cpp", ALLFW, defs=["SMALL"], cpp=True, reach=["accepted", "rejected"], bounds="the same, with the exact text of the message; integers of 100 to 115")])
def only(*f): return [x for n in f for x in ("--mock-only", n)]
def ignoring(*f): return [x for n in f for x in ("--ignore-generation-of", n)]
SETS = [[], only("alpha", "gamma_", "first_of", "inline_body", "nothing"), ignoring("alpha", "third_of", "again", "nothing"), ["--generate-included-functions"],
        ["--generate-included-functions"] + ignoring("included", "beta"), only("included_too", "beta") + ["--generate-included-functions"], only("alpha", "beta") + ignoring("beta")]
MANYH = H("many", "many.c", ALLFW, gen=("shapes/many.h", []), steps=50000000, reach=["accepted", "rejected"], bounds="a header of 300 functions, every fifth of them expected and called, and another one called; all values symbolic")
SETS += [["-DMORE=2", "-I."], ["--generate-types"], ["-DMORE=1", "-I.", "--generate-types", "--generate-included-functions"] + ignoring("included", "local_body"), ["--generate-types"] + only("inline_body", "local_decl", "beta")]
LINESH = H("lines", "lines.c", ALLFW, gen=("shapes/lines.h", []), reach=["called"], bounds="the mocks of a header whose #line directives name other files, existing or not: any two of its 5 functions, every argument, expected and return value")
prop("G02", [MANYH, LINESH] + [H("select%d" % n, "gen/select.c", ALLFW, defs=["SET=%d" % n], gen=(("shapes/select.h", "+shapes/select_inc.h", "+shapes/select_more.h"), o), incs=[x for x in o if x.startswith("-DMORE")],
               reach=["mocked"] + ([] if n > 7 else ["real"]), bounds="the functions of a header with 22 other functions, 7 defined functions, 3 named like macros and 4 of included headers, options %s; every argument, expected and return value symbolic" % (" ".join(o) or "none")) for n, o in enumerate(SETS)])
def cmpof(*t): return [x for n in t for x in ("--generate-comparator-of", n)]
def nofields(*t): return [x for n in t for x in ("--ignore-field-generation-of", n)]
CSETS = [[], cmpof("in", "nothing"), cmpof("mid", "in"), cmpof("un", "in", "anon_t", "like", "tag"), cmpof("in", "mid", "big_t", "struct_like", "union_tag"), cmpof("EasyMock_all_comparators") + nofields("mid"),
         cmpof("in", "EasyMock_all_comparators") + nofields("in", "un", "nothing"), nofields("other") + cmpof("other", "in", "big", "mid") + nofields("big")]
prop("G08", [H("cmpsel%d" % n, "gen/cmpsel.c", ALLFW, defs=["SET=%d" % n], gen=("shapes/cmpsel.h", o), reach=["accepted", "rejected"] if n else [], bounds="the comparators of 9 structures and unions, options %s; every bit of both objects symbolic" % (" ".join(o) or "none")) for n, o in enumerate(CSETS)])
def attrs(*a): return [x for n in a for x in ("--generate-attribute", n)]
ASETS = [[], ["--generate-types"], ["--generate-types"] + attrs("weak"), attrs("__weak__"), attrs("format", "cold", "nonnull", "weak", "nothing", "alloc_size", "malloc", "noinline") + ["--generate-types"]]
prop("G07", [H("attrs%d" % n, "gen/attrs.c", ALLFW, parts=["gen/attrs_p.c"], defs=["SET=%d" % n, "TYPES=%d" % ("--generate-types" in o)], gen=("shapes/attrs.h", o), reach=["mocked"] + (["own"] if n != 1 else []), bounds="23 functions declared with attributes, 8 of them weak, options %s; every argument, expected and return value symbolic" % (" ".join(o) or "none")) for n, o in enumerate(ASETS)])
