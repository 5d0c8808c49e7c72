#!/usr/bin/env python3
"""Writes shapes/<name>.h and harness/gen/<name>.c: headers to be mocked and the harnesses which drive their mocks.
Run after changing a table below; the results are committed."""
import os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

# value types: token -> (declaration with %s for the declared name, kind of equality, output parameter: None, size expression or "void")
T = {
    "c": ("char %s", "v"), "uc": ("unsigned char %s", "v"), "sc": ("signed char %s", "v"),
    "s": ("short %s", "v"), "us": ("unsigned short %s", "v"), "i": ("int %s", "v"), "ui": ("unsigned int %s", "v"),
    "l": ("long %s", "v"), "ul": ("unsigned long %s", "v"), "ll": ("long long %s", "v"), "ull": ("unsigned long long %s", "v"),
    "f": ("float %s", "b4"), "d": ("double %s", "b8"), "ld": ("long double %s", "b10"), "b": ("_Bool %s", "bool"),
    "i128": ("__int128 %s", "v"), "u128": ("unsigned __int128 %s", "v"),
    "u32": ("u32 %s", "v"), "pu32": ("pu32 %s", "v"), "cc": ("char *%s", "v"),
    "en": ("enum color %s", "v"), "ent": ("ab_t %s", "v"), "enp": ("enum color *%s", "v"),
    "pair": ("pair_t %s", "eq_pair"), "big": ("struct big %s", "eq_big"), "nest": ("struct nest %s", "eq_nest"), "one": ("struct one %s", "eq_one"),
    "un": ("union un %s", "eq_un"), "bits": ("struct bits %s", "eq_bits"), "fwt": ("struct fw %s", "eq_fw"),
    "cstr": ("const char *%s", "v"), "pi": ("int *%s", "v"), "pci": ("const int *%s", "v"), "ppi": ("int **%s", "v"), "pl": ("long *%s", "v"),
    "pd": ("double *%s", "v"), "psh": ("short *%s", "v"), "pcsh": ("const short *%s", "v"),
    "v": ("void *%s", "v"), "cv": ("const void *%s", "v"), "pbig": ("struct big *%s", "v"), "pcbig": ("const struct big *%s", "v"), "ppair": ("pair_t *%s", "v"),
    "pop": ("struct opaque *%s", "v"), "pun": ("union un *%s", "v"), "pfw": ("struct fw *%s", "v"), "pb": ("_Bool *%s", "v"),
    "cb": ("cb_t %s", "v"), "fn": ("int (*%s)(int, char)", "v"), "fnv": ("void (*%s)(void)", "v"), "fnb": ("void (*%s)(struct big, int *)", "v"), "ppc": ("char **%s", "v"), "pppi": ("int ***%s", "v"), "ppbig": ("struct big **%s", "v"), "ppv": ("void **%s", "v"), "pppc": ("char ***%s", "v"), "cpcv": ("const void *const *%s", "v"), "pppair": ("pair_t **%s", "v"),
    "tm": ("struct tm *%s", "v"), "ctm": ("const struct tm *%s", "v"), "file": ("FILE *%s", "v"), "pstat": ("struct stat *%s", "v"), "ts": ("struct timespec %s", "eq_ts"), "tv": ("struct timeval %s", "eq_tv"), "csa": ("const struct sockaddr *%s", "v"),
    "sin": ("struct sockaddr_in %s", "b16"), "ina": ("struct in_addr %s", "b4"), "pfds": ("fd_set *%s", "v"), "pss": ("sigset_t *%s", "v"), "fds": ("fd_set %s", "b128"), "pmt": ("pthread_mutex_t *%s", "v"), "pat": ("pthread_attr_t *%s", "v"), "thr": ("void *(*%s)(void *)", "v"),
    "ppf": ("struct pollfd *%s", "v"), "pf": ("struct pollfd %s", "b8"), "lconv": ("struct lconv *%s", "v"), "dir": ("DIR *%s", "v"), "dirent": ("struct dirent *%s", "v"), "tio": ("struct termios *%s", "v"), "div": ("div_t %s", "b8"), "ldiv": ("ldiv_t %s", "b16"), "sig": ("void (*%s)(int)", "v"), "psem": ("sem_t *%s", "v"), "sigv": ("union sigval %s", "b8"),
    "ha": ("a %s", "eq_ha"), "hsa": ("struct a %s", "eq_hsa"), "hcd": ("struct c_d %s", "eq_hcd"), "hd": ("d_ %s", "eq_hd"), "he": ("e_ %s", "eq_he"), "hse": ("struct _e %s", "eq_hse"), "hn": ("nodep %s", "v"), "hl": ("list %s", "v"), "psl": ("struct list *%s", "v"), "sl": ("struct list %s", "eq_sl"), "hs1": ("s1 %s", "eq_hs1"), "hss1": ("struct s1 %s", "eq_hss1"),
    "win": ("struct inner %s", "eq_win"), "wr": ("struct wraps %s", "eq_wr"), "pwr": ("struct wraps *%s", "v"), "pwin": ("struct inner *%s", "v"), "pha": ("a *%s", "v"), "phsa": ("struct a *%s", "v"),
    "va": ("__typeof__(**(__builtin_va_list *)0) *%s", "v"), "pva": ("__builtin_va_list *%s", "v"), "cbva": ("int (*%s)(const char *, __builtin_va_list)", "v"),
    "ck": ("struct ck %s", "eq_ck"), "huge": ("struct huge %s", "b752"), "pcc": ("const char **%s", "v"),
}
PRE = """typedef unsigned int u32;
typedef u32 *pu32;
typedef struct { short a; char b; } pair_t;
struct one { char c; };
struct big { int a[5]; double d; char c; };
struct nest { struct big x; pair_t y; union { int i; float f; } u; };
union un { long l; char c[12]; };
enum color { RED, GREEN = 5, BLUE };
typedef enum { AA, BB = -3 } ab_t;
typedef int (*cb_t)(int, char);
typedef int arr4[4];
struct bits { unsigned a:3; unsigned b:13; int c:16; };
struct opaque;
struct fw { struct fw *next; struct opaque *o; cb_t cb; };
#define IN
#define BYTE unsigned char
#define ARGS int a, char *b
"""
EQ = """static int eq_pair(const pair_t *x, const pair_t *y) { return (x->a == y->a) & (x->b == y->b); }
static int eq_one(const struct one *x, const struct one *y) { return x->c == y->c; }
static int eq_big(const struct big *x, const struct big *y) { int r = x->c == y->c; for (int i = 0; i < 5; i++) r &= x->a[i] == y->a[i]; return r & !memcmp(&x->d, &y->d, 8); }
static int eq_nest(const struct nest *x, const struct nest *y) { return eq_big(&x->x, &y->x) & eq_pair(&x->y, &y->y) & (x->u.i == y->u.i); }
static int eq_un(const union un *x, const union un *y) { return (x->l == y->l) & !memcmp(x->c, y->c, 12); }
static int eq_bits(const struct bits *x, const struct bits *y) { return (x->a == y->a) & (x->b == y->b) & (x->c == y->c); }
static int eq_fw(const struct fw *x, const struct fw *y) { return (x->next == y->next) & (x->o == y->o) & (x->cb == y->cb); }
static int eq_ck(const struct ck *x, const struct ck *y) { return (x->a == y->a) & (x->p == y->p) & (x->c == y->c); }
static int eq_ts(const struct timespec *x, const struct timespec *y) { return (x->tv_sec == y->tv_sec) & (x->tv_nsec == y->tv_nsec); }
static int eq_tv(const struct timeval *x, const struct timeval *y) { return (x->tv_sec == y->tv_sec) & (x->tv_usec == y->tv_usec); }
static int eq_ha(const a *x, const a *y) { return x->x == y->x; }
static int eq_hsa(const struct a *x, const struct a *y) { return (x->m.x == y->m.x) & (x->n == y->n); }
static int eq_hcd(const struct c_d *x, const struct c_d *y) { return x->x == y->x; }
static int eq_hd(const d_ *x, const d_ *y) { return !memcmp(&x->y, &y->y, 8) & (x->k == y->k); }
static int eq_he(const e_ *x, const e_ *y) { return x->x == y->x; }
static int eq_hse(const struct _e *x, const struct _e *y) { return (x->z == y->z) & (x->zz == y->zz); }
static int eq_sl(const struct list *x, const struct list *y) { return (x->head == y->head) & (x->n == y->n); }
static int eq_hs1(const s1 *x, const s1 *y) { return (x->a == y->a) & (x->c == y->c); }
static int eq_hss1(const struct s1 *x, const struct s1 *y) { return (x->m.a == y->m.a) & (x->p == y->p) & (x->k == y->k); }
static int eq_win(const struct inner *x, const struct inner *y) { return (x->owner == y->owner) & (x->k == y->k); }
static int eq_wr(const struct wraps *x, const struct wraps *y) { return eq_win(&x->in, &y->in) & eq_win(&x->more[0], &y->more[0]) & eq_win(&x->more[1], &y->more[1]) & (x->z == y->z); }
"""
def eqs(fs):
    """the comparisons of the types used by value"""
    use = {T[t][1] for f in fs for t in [q[0] for q in f["ps"]] + [f["ret"]] if t}
    lines = EQ.splitlines(True)
    if "eq_nest" in use:
        use |= {"eq_big", "eq_pair"}
    if "eq_wr" in use:
        use |= {"eq_win"}
    return "".join(l for l in lines if l.split("(")[0].split()[-1] in use)


# (function, return token or None, [(token, name or None, declaration or None)], declaration of the whole function or None)
def F(name, ret, *params, **kw):
    ps = []
    for i, q in enumerate(params):
        q = q if isinstance(q, tuple) else (q,)
        ps.append((q[0], q[1] if len(q) > 1 else "p%d" % (i + 1), q[2] if len(q) > 2 else None))
    return dict(name=name, ret=ret, ps=ps, **kw)

SCALARS = [
    F("s_char", "c", "c", "uc"), F("s_short", "us", "s", "us"), F("s_int", "i", "ui", "i"), F("s_long", "ul", "l", "ul"), F("s_ll", "ll", "ll", "ull"),
    F("s_flt", "f", "f", "d"), F("s_ld", "ld", "ld", "d"), F("s_bool", "b", "b", "i"), F("s_128", "i128", "i128", "u128"), F("s_u128", "u128", "c"),
    F("s_uc", "uc"), F("s_d", "d", "i"), F("s_s", "s", "c", "c", "c"), F("s_td", "u32", "u32", "pu32"), F("s_ui", "ui", "uc", "ull", "us", "f"),
    F("s_void", None, "i"), F("s_none", None), F("s_ull", "ull", "d", "ld", "b"), F("s_sc", "sc", "sc", "uc"),
    F("s_const", "i", ("i", "a", "const int a"), ("uc", "b", "volatile unsigned char b"), decl="const int s_const(const int a, volatile unsigned char b)"),
    F("s_six", "c", "c", "s", "i", "l", "f", "d", one_at_a_time=True),
]
COMPOSED = [
    F("c_pair", "pair", "pair", "i"), F("c_big", "big", "big", "pair"), F("c_nest", "nest", "i", "nest"), F("c_one", "one", "one", "one"),
    F("c_un", "un", "un", "bits"), F("c_bits", "bits", "bits"), F("c_en", "en", "en", "ent"), F("c_ent", "ent", "ent"), F("c_fw", "fwt", "fwt", "pfw"),
    F("c_void", None, "big", "nest"), F("c_mix", "nest", "pair", "d", "bits"),
]
POINTERS = [
    F("p_str", "cstr", "cstr", ("pci", "q", "const int *const q"), "ppi"), F("p_void", "v", "v", "cv"), F("p_big", "pbig", "pbig", "pcbig"), F("p_op", "pop", "pop"),
    F("p_cb", "cb", "cb", "fn"), F("p_cb2", "i", "fnv", "fnb"), F("p_en", "enp", "enp", "pb"),
    F("p_arr", "i", ("pi", "a", "int a[4]"), ("cc", "b", "char b[]"), ("pcsh", "c", "const short c[3]")), F("p_tdarr", None, ("pi", "a", "arr4 a")),
    F("p_fnret", "fn", "i", decl="int (*p_fnret(int p1))(int, char)"), F("p_cfn", "cv", ("pcc", "a"), ("ppc", "b")),
    F("p_cret", "pcbig", ("pci", "a", "int const *a")), F("p_cptr", "pi", ("pi", "a", "int *const a"), decl="int *const p_cptr(int *const a)"),
    F("p_fnp", "i", ("fn", "g", "int g(int, char)")),
]
SPELLING = [
    F("d_var", "i", ("cstr", "fmt"), decl="int d_var(const char *fmt, ...)", callextra=", 1, 2"),
    F("d_noname", "i", ("i", None), ("cc", None), ("big", None), decl="int d_noname(int, char *, struct big)"),
    F("d_order", "ui", ("ul", "a", "long unsigned int a"), ("l", "b", "int long b"), ("uc", "c", "char unsigned c"), decl="unsigned d_order(long unsigned int a, int long b, char unsigned c)"),
    F("d_cpos", "cstr", ("cstr", "a", "char const *a"), ("i", "b", "int const b"), decl="char const *d_cpos(char const *a, int const b)"),
    F("d_com", "i", ("i", "x", "int /* a, b */ x"), ("cc", "y", "char *y /* , z */"), decl="int d_com(int /* a, b */ x, /* c */ char *y /* , z */)"),
    F("d_line", "i", ("i", "x"), ("c", "y"), decl="int d_line(int // first\n x,\n char\n y // second\n)"),
    F("d_mac", "uc", ("uc", "a"), ("uc", "b"), decl="BYTE d_mac(IN BYTE a, const BYTE b)"),
    F("d_macs", "i", ("i", "a"), ("cc", "b"), decl="int d_macs(ARGS)"),
    F("d_attr", "i", ("i", "a"), ("cc", "b"), decl="int d_attr(int a __attribute__((unused)), __attribute__((unused)) char *b)"),
    F("d_ext", "i", ("i", "a"), decl="extern int d_ext(int a)"),
    F("d_kr", "i", decl="int d_kr()"), F("d_tab", "i", ("i", "a"), ("cc", "b"), decl="int\td_tab(\tint\ta\t,\tchar\n *\tb\t)"),
    F("d_dup", "i", ("i", "a"), decl="int d_dup(int a);\nint d_dup(int b);\nint d_dup(int)"),
    F("d_names", "i", ("i", "error"), ("i", "data"), ("i", "matcher"), ("i", "mf"), ("i", "name"), one_at_a_time=True),
    F("d_restrict", "v", ("v", "d", "void *restrict d"), ("cstr", "s", "const char *restrict s")),
    F("d_static", "i", ("pi", "a", "int a[static 3]")),
]
PRE2 = """#include <stddef.h>
#include <stdint.h>
#include <stdbool.h>
#define API
#define XAPI __attribute__((visibility("default")))
#define XAPI_CALL(n) __attribute__((aligned(n)))
#define NOTHING(s) __attribute__((section(s)))
#define U unsigned
#define PAR(x) x int
#define RET(t) extern t
#define LONG long
#define PTR(t) t *
#define CONST const
typedef int is_extern;
typedef int my_static_inline;
typedef int inline_t;
typedef u32 API_T;
typedef short XAPI_T;
"""
SPELLRET = [   # what surrounds the type of a function
    F("r_empty", "ui", ("i", "a"), decl="API API_T r_empty(int a)"), F("r_attr", "s", ("s", "a"), decl="XAPI XAPI_T r_attr(XAPI_T a)"),
    F("r_attr2", "s", ("ui", "a"), decl="XAPI_T XAPI r_attr2(API_T API a)"), F("r_u", "ui", ("ui", "a"), decl="U int r_u(U int a)"), F("r_u2", "ui", ("ui", "a"), decl="U r_u2(U a)"),
    F("r_par", "ui", ("i", "a"), decl="PAR(unsigned) r_par(int a)"), F("r_ext", "l", ("l", "a"), decl="RET(long) r_ext(LONG int a)"),
    F("r_tab", "ui", ("i", "a"), decl="extern\tunsigned\tint r_tab(int a)"), F("r_lines", "i", ("i", "a"), decl="extern\nint\nr_lines(int a)"), F("r_post", "i", ("i", "a"), decl="int extern r_post(int a)"),
    F("r_cptr", "pci", ("pi", "a"), decl="const is_extern *r_cptr(inline_t *a)"), F("r_ptr", "cc", ("cstr", "a"), decl="PTR(char) r_ptr(PTR(const char) a)"),
    F("r_const", "cstr", ("pci", "a"), ("cstr", "b"), decl="CONST char *r_const(CONST int *a, char CONST *b)"), F("r_call", "i", ("i", "a"), decl="XAPI_CALL(16) int r_call(int a)"),
    F("r_sect", "i", ("i", "a"), decl='NOTHING(".text.[*+") int r_sect(int a)'), F("r_com", "big", ("i", "a"), decl="struct big /* struct pair */ r_com(int a)"),
    F("r_com2", "i", decl="/* old: short */ int r_com2(void)"), F("r_com3", "uc", ("i", "a"), decl="unsigned // int\n char r_com3(int a)"),
    F("r_paren", "i", ("i", "a"), decl="int (r_paren)(int a)"), F("r_paren2", "pi", ("i", "a"), decl="int *(r_paren2)(int a)"), F("r_ext2", "i", ("i", "a"), decl="__extension__ int r_ext2(int a)"),
    F("r_vol", "i", ("i", "a"), decl="volatile int r_vol(int a)"), F("r_typeof", "i", ("s", "a"), decl="__typeof__(int) r_typeof(__typeof__(short) a)"),
    F("r_fw", "pfw", ("pfw", "a"), decl="struct fw *r_fw(struct fw *const a)"), F("r_bool", "b", ("b", "a"), decl="bool r_bool(bool a)"), F("r_u64", "ul", ("uc", "a"), ("ul", "n"), decl="uint64_t r_u64(uint8_t a, size_t n)"),
    F("r_a", "cc", ("cc", "a"), decl="char *r_a(char *a), r_b(char b)"), F("r_b", "c", ("c", "b"), decl="extern int r_b_follows"),
    F("r_names", "cstr", ("cstr", "a"), decl="extern const char *const r_names(const char *const a)"), F("r_isext", "i", ("i", "a"), decl="is_extern r_isext(my_static_inline a)"),
    F("r_sh", "us", ("i", "s"), ("ull", "l"), ("ld", "d"), decl="short int unsigned r_sh(signed s, long long int unsigned l, long double d)"),
]
PRE3 = """typedef u32 u32_1;
typedef u32_1 u32_2;
typedef const u32_2 u32_3;
typedef pair_t pair_1;
typedef pair_1 pair_2;
typedef struct big big_t;
typedef big_t *big_p;
typedef big_p big_p2;
typedef cb_t cb_2;
struct huge { char c[600]; int n[37]; int last; };
typedef enum color color_t;
typedef color_t color_2;
typedef char *str_t;
typedef const char *cstr_t;
struct ck { const int a; char *const p; short c; };
"""
LONGNAME = "a_name_which_is_as_long_as_the_names_that_code_generators_for_protocol_stacks_like_to_make"
WIDE = [   # many parameters, long names, long chains of types, large values
    F("w_many", "ll", *["c", "ull", "s", "d", "i", "v", "uc", "f", "l", "pair", "us", "ui", "cstr", "ld", "b", "en", "i128"], one_at_a_time=2),
    F("w_same", "i", *["i"] * 12, one_at_a_time=2), F("w_structs", "pair", *["pair"] * 5, one_at_a_time=2), F("w_ptrs", "cc", *["cc", "cstr", "cc", "ppc", "v", "cv", "pci"], one_at_a_time=2),
    F("w_" + LONGNAME, "l", ("l", LONGNAME), ("l", LONGNAME[:-1])),
    F("w_deep", "pppi", "pppi", "ppbig", "ppv"), F("w_deep2", "ppv", "pppc", "cpcv", "pppair"),
    F("w_chain", "ui", ("ui", "a", "u32_2 a"), ("ui", "b", "u32_3 b"), ("ui", "c", "const u32_1 c"), decl="u32_2 w_chain(u32_2 a, u32_3 b, const u32_1 c)"),
    F("w_chain2", "pair", ("pair", "a", "pair_2 a"), ("ppair", "b", "pair_2 *b"), ("pbig", "c", "big_p2 c"), decl="pair_1 w_chain2(pair_2 a, pair_2 *b, big_p2 c)"),
    F("w_chain3", "pbig", ("big", "a", "big_t a"), ("fn", "b", "cb_2 b"), ("en", "c", "color_2 c"), decl="big_p w_chain3(big_t a, cb_2 b, color_2 c)"),
    F("w_chain4", "cstr", ("cc", "a", "str_t a"), ("cc", "b", "const str_t b"), ("cstr", "c", "cstr_t c"), ("cstr", "d", "const cstr_t d"), decl="cstr_t w_chain4(str_t a, const str_t b, cstr_t c, const cstr_t d)", one_at_a_time=2),
    F("w_ck", "ck", "ck", ("ck", "b", "const struct ck b")), F("w_ckret", "ck"), F("w_huge", "huge", "huge", "i"), F("w_huge2", "huge", "i", "huge", "huge"),
    F("w_locals", "i", *[("i", n) for n in "errorMessage curCallVal expectedCallVal matcher error currentDataCall printCallStack checkCallsOrder default_res currentCall curFuncCall mockedData rv instance idx data call".split()], one_at_a_time=2),
    F("w_matched", "cstr", ("cstr", "errorMessage"), ("cstr", "paramName"), ("i", "idx")),
    F("w_digits2", "i", ("i", "a1"), ("i", "a11"), ("i", "a"), ("i", "A"), one_at_a_time=2), F("w_digits", "i", ("i", "_"), ("i", "__a"), ("i", "a_")), F("w_digits22", "i", "i"), F("W_DIGITS2", "l", "l"),
]
PRE5 = "".join("#include <%s.h>\n" % h for h in "stdio time sys/types sys/stat sys/socket netinet/in sys/select pthread signal poll locale dirent termios stdint inttypes sys/time semaphore stdlib".split())
SYSTEM = [   # types of the C library and of POSIX
    F("y_time", "l", ("pl", "t", "time_t *t"), "ctm", decl="time_t y_time(time_t *t, const struct tm *p2)"), F("y_read", "l", "i", "v", ("ul", "n", "size_t n"), ("l", "off", "off_t off"), decl="ssize_t y_read(int p1, void *p2, size_t n, off_t off)"),
    F("y_open", "file", "cstr", ("ui", "m", "mode_t m")), F("y_stat", "i", "file", "pstat"), F("y_ts", "ts", "ts", ("i", "c", "clockid_t c")), F("y_tv", "tv", "tv", ("l", "u", "suseconds_t u")),
    F("y_bind", "i", "i", "csa", ("ui", "n", "socklen_t n")), F("y_in", "sin", "ina", ("us", "p", "in_port_t p")), F("y_sel", "i", "pfds", "pss", "fds"), F("y_thr", "i", ("ul", "t", "pthread_t t"), "pat", "pmt", "thr"),
    F("y_poll", "i", "ppf", ("ul", "n", "nfds_t n"), "pf"), F("y_loc", "lconv"), F("y_dir", "dir", "dirent", ("ul", "i", "ino_t i")), F("y_tty", "ui", "tio", ("uc", "c", "cc_t c"), decl="speed_t y_tty(struct termios *p1, cc_t c)"),
    F("y_div", "div", "i", "ldiv"), F("y_max", "l", ("ul", "a", "uintmax_t a"), ("l", "b", "int_fast16_t b"), ("sc", "c", "int_least8_t c"), ("ul", "d", "uintptr_t d"), decl="intmax_t y_max(uintmax_t a, int_fast16_t b, int_least8_t c, uintptr_t d)"),
    F("y_sig", "sig", "i", "sig", decl="void (*y_sig(int p1, void (*p2)(int)))(int)"), F("y_sem", "psem", "psem", "sig"), F("y_sv", "sigv", "sigv"),
    F("y_fork", "i", ("ui", "a", "uid_t a"), ("ui", "b", "gid_t b"), ("ul", "c", "dev_t c"), ("l", "d", "blkcnt_t d"), decl="pid_t y_fork(uid_t a, gid_t b, dev_t c, blkcnt_t d)"),
]
PRE6 = """struct wraps;
typedef struct b { int x; } a;
struct a { a m; short n; };
struct c_d { int x; };
typedef struct c { double y; char k; } d_;
typedef struct { char x; } e_;
struct _e { short z; char zz; };
typedef struct node *nodep;
typedef struct list *list;
struct list { list head; nodep n; };
struct node { struct node *next; struct list *owner; };
typedef union u1 { int a; char c; } s1;
struct s1 { s1 m; s1 *p; char k; };
struct inner { struct wraps *owner; int k; };
struct wraps { struct inner in; struct inner more[2]; int z; };
"""
HOMONYMS = [   # tags and typedef names which are alike, types which refer to each other, comments around the declarator
    F("h_ab", "ha", "hsa", "ha"), F("h_ba", "hsa", "ha", "hsa"), F("h_cd", "hcd", "hcd", "hd"), F("h_d", "hd", "hd"), F("h_e", "he", "he", "hse"), F("h_se", "hse", "hse"), F("h_p", "pha", "pha", "phsa"), F("h_sp", "phsa", "phsa"),
    F("h_node", "hn", "hn", "hl"), F("h_list", "hl", "psl", "sl"), F("h_slist", "sl", "hn"), F("h_s1", "hs1", "hs1", "hss1"), F("h_ss1", "hss1", "hss1"), F("h_in", "pwin", "pwr"), F("h_wr", "wr", "wr", "win"), F("h_win", "win", "pwin"),
    F("h_com", "pi", decl="int /* a */ * /* b */ h_com(void)"), F("h_com2", "ppc", ("cc", "a"), decl="char /* * */ * /* ( */ * h_com2 /* ) */ (/* int */ char */**/a)"), F("h_com3", "ui", ("pci", "a"), decl="/**/unsigned/**/int/**/h_com3/**/(/**/const/**/int/**/*/**/a/**/)/**/"),
    F("h_com4", "cc", ("i", "a"), decl="char // *\n * // (int)\n h_com4(int // b)\n a)"),
]
OUTS = [   # (function, params with out: how): how: token of the pointed-to type or "void"
    F("o_int", "i", "pi"), F("o_two", None, "pi", "pd", outs={0: "i", 1: "d"}), F("o_big", "i", "i", "pbig", outs={1: "big"}), F("o_pair", "pair", "ppair", outs={0: "pair"}),
    F("o_void", None, "v", "i", outs={0: "void"}), F("o_two_void", "i", "v", "v", outs={0: "void", 1: "void"}), F("o_pp", "i", "ppi", outs={0: "pi"}), F("o_un", None, "pun", outs={0: "un"}),
    F("o_arr", "i", ("pi", "a", "int a[4]"), ("cc", "b", "char b[]"), outs={0: "i", 1: "c"}), F("o_en", "en", "enp", outs={0: "en"}), F("o_b", "b", "pb", outs={0: "b"}),
    F("o_mixed", "l", "pci", "psh", "cv", "pl", outs={1: "s", 3: "l"}), F("o_opaque", "i", "pop", outs={0: "void"}), F("o_fw", "i", "pfw", outs={0: "fwt"}), F("o_mid", "i", "i", "v", "pi", outs={1: "void", 2: "i"}),
]
OUTS[0]["outs"] = {0: "i"}
PRE4 = """typedef struct opaque opaque_t;
typedef opaque_t *handle;
typedef struct big *big_p;
typedef struct big big_1;
typedef void *anything;
typedef void nothing;
union nowhere;
typedef union nowhere nowhere_t;
typedef pair_t pair_1;
enum undefined;
"""
OUTSWIDE = [   # many outputs, outputs through typedefs, of incomplete types and of pointers
    F("ow_six", "i", "pi", "cc", "psh", "pd", "ppair", "pl", outs={0: "i", 1: "c", 2: "s", 3: "d", 4: "pair", 5: "l"}),
    F("ow_same", None, "pi", "pi", "pi", "pi", outs={0: "i", 1: "i", 2: "i", 3: "i"}),
    F("ow_td", "i", ("pu32", "a", "u32 *a"), ("pbig", "b", "big_1 *b"), ("ppair", "c", "pair_1 *c"), ("pu32", "d"), outs={0: "u32", 1: "big", 2: "pair"}),
    F("ow_tdvoid", "v", ("v", "a", "anything a"), ("pop", "b", "handle b"), ("pop", "c", "opaque_t *c"), ("v", "d", "nothing *d"), ("pop", "e", "const opaque_t *e"), decl="anything ow_tdvoid(anything a, handle b, opaque_t *c, nothing *d, const opaque_t *e)", outs={2: "void", 3: "void"}),
    F("ow_union", "pop", ("v", "a", "union nowhere *a"), ("v", "b", "nowhere_t *b"), outs={0: "void", 1: "void"}),
    F("ow_pph", "i", ("ppv", "a", "opaque_t **a"), ("ppv", "b", "handle *b"), outs={0: "v", 1: "v"}),
    F("ow_ptrs", "i", "ppc", "ppbig", outs={0: "cc", 1: "pbig"}),
    F("ow_ppv", "i", "ppv", "i", outs={0: "void"}),
    F("ow_enum", "i", ("v", "a", "enum undefined *a"), ("enp", "b"), decl="int ow_enum(enum undefined *a, enum color *b)", outs={0: "void", 1: "en"}),
    F("ow_const", "cstr", ("pi", "a", "int *const a"), ("pci", "b"), ("v", "c", "void *const c"), ("cv", "d"), outs={0: "i", 2: "void"}),
    F("ow_names", "i", ("pi", "out"), ("pi", "size"), ("cc", "ret"), ("pl", "a_size"), outs={0: "i", 1: "i", 2: "c", 3: "l"}),
    F("ow_var", "i", ("pi", "a"), ("cstr", "f"), ("ppair", "b"), decl="int ow_var(int *a, const char *f, pair_t *b, ...)", outs={0: "i", 2: "pair"}),
    F("ow_restrict", "v", ("v", "d", "void *restrict d"), ("cc", "s", "char *restrict s"), ("ul", "n"), outs={0: "void", 1: "c"}),
    F("ow_cb", "cb", ("cb", "a"), ("fn", "b"), ("pi", "c"), outs={2: "i"}),
]

def fdecl(f):
    if "decl" in f:
        return f["decl"] + ";"
    ps = ", ".join(d if d else T[t][0] % n for t, n, d in f["ps"]) or "void"
    return (T[f["ret"]][0] if f["ret"] else "void %s") % ("%s(%s)" % (f["name"], ps)) + ";"

def header(name, fs, pre=PRE):
    g = name.upper() + "_H"
    return "#ifndef %s\n#define %s\n%s%s\n#endif\n" % (g, g, pre, "\n".join(fdecl(f) for f in fs))

def eq(tok, x, y):
    k = T[tok][1]
    if k in ("v", "bool"):
        return "%s == %s" % (x, y)
    if k.startswith("b"):
        return "!memcmp(&%s, &%s, %s)" % (x, y, k[1:])
    return "%s(&%s, &%s)" % (k, x, y)

def typedefs(fs):
    toks = sorted({t for f in fs for t, _, _ in f["ps"]} | {f["ret"] for f in fs if f["ret"]} | {o for f in fs for o in f.get("outs", {}).values() if o != "void"})
    return "".join("typedef " + T[t][0] % ("t_" + t) + ";\n" for t in toks)

def mock_test(f):
    n = len(f["ps"]); o = []
    w = o.append
    w("static void test_%s(void)\n{" % f["name"])
    mem = "".join(" t_%s p%d;" % (t, i) for i, (t, _, _) in enumerate(f["ps"]))
    w("  struct {%s%s char unused; } e[CALLS], a[CALLS];" % (mem, " t_%s ret;" % f["ret"] if f["ret"] else ""))
    w("  unsigned m[CALLS];")
    w("  for (int k = 0; k < CALLS; k++) {")
    for i, (t, _, _) in enumerate(f["ps"]):
        for s in "ea":
            w('    SYM%s(%s[k].p%d, "%s%d");' % ("B" if T[t][1] == "bool" else "", s, i, "expected" if s == "e" else "actual", i))
    if f["ret"]:
        w('    SYM%s(e[k].ret, "ret");' % ("B" if T[f["ret"]][1] == "bool" else ""))
    # which parameters have a matcher: none, all, or a single one
    w("    m[k] = MASKS(%d, k, %d);" % (n, int(f.get("one_at_a_time", 0))))
    args = ["e[k].p%d" % i for i in range(n)] + (["e[k].ret"] if f["ret"] else []) + ["m[k] >> %d & 1 ? M%d : 0" % (i, i) for i in range(n)]
    w("    %s_ExpectAndReturn(%s);" % (f["name"], ", ".join(args)))
    w("  }\n  for (int k = 0; k < CALLS; k++) {")
    for i, (t, _, _) in enumerate(f["ps"]):
        w("    size[%d] = sizeof(t_%s);" % (i, t))
    w("    begin(m[k]);")
    w("    %s%s(%s%s);" % ("t_%s r = " % f["ret"] if f["ret"] else "", f["name"], ", ".join("a[k].p%d" % i for i in range(n)), f.get("callextra", "")))
    if f["ret"]:
        w('    vf_assert(%s, "the mock does not return the value given to its expectation");' % eq(f["ret"], "r", "e[k].ret"))
    for i, (t, nm, _) in enumerate(f["ps"]):
        w("    if (m[k] >> %d & 1) {" % i)
        w("      t_%s c, x; memcpy(&c, cur[%d], sizeof c); memcpy(&x, xp[%d], sizeof x);" % (t, i, i))
        w('      vf_assert(%s, "a matcher is not given the actual value of its parameter");' % eq(t, "c", "a[k].p%d" % i))
        w('      vf_assert(%s, "a matcher is not given the expected value of its parameter");' % eq(t, "x", "e[k].p%d" % i))
        if nm:
            w('      vf_assert(!strcmp(pname[%d], "%s"), "a matcher is not given the name of its parameter");' % (i, nm))
        w("    }")
    w('    end(%d, m[k], "%s");' % (n, f["name"]))
    w("  }\n  finish();\n}")
    return "\n".join(o) + "\n"

def mock_harness(name, fs):
    s = '// Written by tools/mkshapes.py.  Each mock of shapes/%s.h: expectations with arbitrary values, then calls with arbitrary values.\n' % name
    if name == "wide":
        s += "#define NP 17\n#define VALUE 1200\n"
    s += '#include "mock.h"\n#ifndef GENTYPES\n#include "%s.h"\n#endif\n#include "easyMock_%s.h"\n' % (name, name) + typedefs(fs) + eqs(fs)
    s += "".join(mock_test(f) for f in fs)
    s += "void vf_main(void)\n{\n  start();\n  switch (vf_choice(%d, \"function\")) {\n%s  }\n}\n" % (len(fs), "".join("    case %d: test_%s(); break;\n" % (i, f["name"]) for i, f in enumerate(fs)))
    return s

def out_test(f):
    n = len(f["ps"]); o = []
    w = o.append
    w("static void test_%s(void)\n{" % f["name"])
    mem = "".join(" t_%s p%d;" % (t, i) for i, (t, _, _) in enumerate(f["ps"]))
    w("  struct {%s char unused; } e = {0}, a = {0};" % mem)
    if f["ret"]:
        w('  t_%s ret;\n  SYM%s(ret, "ret");' % (f["ret"], "B" if T[f["ret"]][1] == "bool" else ""))
    for i, (t, _, _) in enumerate(f["ps"]):
        if i not in f["outs"]:
            w('  SYM(a.p%d, "actual%d");' % (i, i))
        else:
            k = f["outs"][i]
            w('  OUT(%d, %s);' % (i, "0" if k == "void" else "sizeof(t_%s)" % k))
            w("  a.p%d = (void *)(dst[%d] + 16); t_%s o%d = has[%d] ? (void *)src[%d] : 0;" % (i, i, f["ps"][i][0], i, i, i))
    args = ["e.p%d" % i for i in range(n)] + (["ret"] if f["ret"] else []) + ["0"] * n
    outs = []
    for i in range(n):
        if i in f["outs"]:
            outs.append("o%d" % i)
            if f["outs"][i] == "void":
                outs.append("len[%d]" % i)
    w("  if (plain) %s_ExpectAndReturn(%s);" % (f["name"], ", ".join(args)))
    w("  else %s_ExpectReturnAndOutput(%s);" % (f["name"], ", ".join(args + outs)))
    w("  for (int k = 0; k < 2; k++) {   // the second call is unexpected")
    w("    %s%s(%s);" % ("t_%s r = " % f["ret"] if f["ret"] else "", f["name"], ", ".join("a.p%d" % i for i in range(n))))
    if f["ret"]:
        w('    if (!k) vf_assert(%s, "the mock does not return the value given to its expectation");' % eq(f["ret"], "r", "ret"))
    w("    verify(k);")
    w("  }\n}")
    return "\n".join(o) + "\n"

def out_harness(name, fs):
    s = '// Written by tools/mkshapes.py.  Each mock of shapes/%s.h with output parameters: what a call writes where.\n' % name
    s += '#include "out.h"\n#ifndef GENTYPES\n#include "%s.h"\n#endif\n#include "easyMock_%s.h"\n' % (name, name) + typedefs(fs) + eqs(fs)
    s += "".join(out_test(f) for f in fs)
    s += "void vf_main(void)\n{\n  start();\n  switch (vf_choice(%d, \"function\")) {\n%s  }\n}\n" % (len(fs), "".join("    case %d: test_%s(); break;\n" % (i, f["name"]) for i, f in enumerate(fs)))
    return s

def write(rel, text):
    p = V + "/" + rel
    os.makedirs(os.path.dirname(p), exist_ok=True)
    if not os.path.exists(p) or open(p).read() != text:
        open(p, "w").write(text)

PRE7 = """#include <stdarg.h>
#define ZEXTERN extern
#define EXPORTED __attribute__((visibility("default")))
#define LOCALAPI extern EXPORTED
#define TYPED(t) t
#define CONST const
#define STRUCT struct
#define ULONG unsigned long
"""
APIS = [   # what libraries put around their declarations; parameters without names
    F("p_ext", "i", ("i", "a"), decl="ZEXTERN int p_ext(int a)"), F("p_api", "cstr", ("i", "a"), decl="LOCALAPI const char *p_api(int a)"),
    F("p_unn", "i", ("cstr", None), ("i", None), decl="extern EXPORTED TYPED(int) p_unn(CONST char *, int)"),
    F("p_void", "v", ("cstr", "x"), ("cv", None), decl="ZEXTERN TYPED(void *) p_void(CONST char *x, CONST void *)"),
    F("p_va", "i", ("cstr", None), ("va", None), decl="int p_va(const char *, va_list)"), F("p_va2", "i", ("i", "a"), ("va", "ap"), decl="ZEXTERN int p_va2(int a, va_list ap)"),
    F("p_pva", "i", ("pva", None), decl="int p_pva(va_list *)"), F("p_cbv", "i", ("cbva", "cb"), decl="int p_cbv(int (*cb)(const char *, va_list))"),
    F("p_words", "cstr", ("i", None), ("ul", None), decl="CONST char *p_words(CONST int, CONST unsigned long)"), F("p_wide", "ul", ("ul", None), ("ll", None), decl="ULONG p_wide(CONST unsigned long, CONST long long)"),
    F("p_arr", "i", ("pcc", None), ("pcbig", None), decl="int p_arr(CONST char *[2], CONST struct big *)"), F("p_ul", "ul", ("ul", None), ("ul", "b"), decl="ULONG p_ul(ULONG, ULONG b)"),
    F("p_struct", "pcbig", ("pfw", None), ("big", None), decl="CONST STRUCT big *p_struct(STRUCT fw *, STRUCT big)"), F("p_uch", "uc", ("uc", None), ("uc", "b"), decl="BYTE p_uch(IN BYTE, IN BYTE b)"),
]
NAMES = [   # functions and parameters with unusual names
    F("_n", "i", ("i", "_")), F("__n", "l", ("l", "__")), F("n_", "c", ("c", "___")), F("__n__", "ul", ("ul", "_1")), F("N", "d", ("d", "N")), F("n", "ui", ("ui", "n")), F("nN9_9", "us", ("us", "n9")),
    F("data", "i", ("pair", "data_")), F("instance", "i", ("i", "this")), F("matcher", "pair", ("pair", "match")), F("verify", "v", ("cv", "new")), F("reset", "cb", ("cb", "delete")), F("mockedData", "ll", ("ll", "class")),
    F("template", "i", ("en", "namespace"), ("en", "using"), one_at_a_time=1), F("cmp", "i", ("pbig", "cmp_int"), ("i", "cmp_str")), F("currentCall", "un", ("un", "operator")), F("expectedCall", "f", ("f", "virtual")), F("paramName", "cstr", ("cstr", "name")),
    F("registerMock", "uc", ("uc", "register_")), F("mock", "s", ("s", "mocked"), ("s", "mock_")), F("dummyRes", "i128", ("i128", "dummyRes_i")), F("expect", "i", ("i", "ExpectAndReturn")), F("nullptr", "v", ("v", "null")), F("bool_", "b", ("b", "boolean")), F("NULL_", "cc", ("cc", "EOF_")),
    F("shadow", "i", ("i", "matcher"), ("pair", "error"), ("cv", "expectedCallVal"), ("l", "rv"), ("s", "data"), ("uc", "shadow"), one_at_a_time=1), F("matchers", "s", ("cv", "matcher")), F("actual", "l", ("s", "error"), ("ui", "currentCallVal"), ("pbig", "curFuncCall"), one_at_a_time=1),
]

def main():
    for name, fs in (("scalars", SCALARS), ("composed", COMPOSED), ("pointers", POINTERS), ("spelling", SPELLING), ("spellret", SPELLRET), ("wide", WIDE), ("system", SYSTEM), ("homonyms", HOMONYMS), ("apis", APIS), ("names", NAMES)):
        write("shapes/%s.h" % name, header(name, fs, PRE + {"spellret": PRE2, "wide": PRE3, "system": PRE5, "homonyms": PRE6, "apis": PRE7}.get(name, "")))
        write("harness/gen/%s.c" % name, mock_harness(name, fs))
    write("shapes/outs.h", header("outs", OUTS))
    write("harness/gen/outs.c", out_harness("outs", OUTS))
    write("shapes/outswide.h", header("outswide", OUTSWIDE, PRE + PRE4))
    write("harness/gen/outswide.c", out_harness("outswide", OUTSWIDE))

if __name__ == "__main__":
    main()
