// Written by tools/mkcmp.py.  Generated comparators of shapes/cmpt.h: verdict and message.
#include "cmp.h"
#ifndef GENTYPES
#include "cmpt.h"
#endif
#include "easyMock_cmpt.h"
static void test_0(void)
{
  pair_t a, e, *pa = &a, *pe = &e;
  int only = begin(2);
  if (only < 0) { memset(&a, 0, sizeof a); memset(&e, 0, sizeof e);
    GARBAGE(a); GARBAGE(e);
  } else { vf_symbolic(&a, sizeof a, "same"); memcpy(&e, &a, sizeof e); }
  if (only < 0) {

  } else switch (only) {
    case 0: ONE_VAL(a.a, e.a, "hi"); break;
    case 1: ONE_VAL(a.b, e.b, "c"); break;
  }
  static const struct leaf L[] = {
    {"", "a", -1},
    {"", "b", -1}
  };
  unsigned char d[2];
  d[0] = a.a != e.a;
  d[1] = a.b != e.b;
  int r = deref ? DEREF(pair_t)(&pa, &pe, name, buf) : cmp_pair_t(&a, &e, name, buf);
  if (!verdict(r, d, 2)) return;
  for (int k = 0; k < 2; k++) if (named(&L[k])) {
    int n = 0;
    switch (k) {
      case 0: if (TEXT(0)) n = snprintf(ref, sizeof ref, " value '%hi', was expecting '%hi'", a.a, e.a); break;
      case 1: if (TEXT(0)) n = snprintf(ref, sizeof ref, " value '%c', was expecting '%c'", a.b, e.b); break;
    }
    shows(d[k], n);
  }
  shown();
}
static void test_1(void)
{
  struct node a, e, *pa = &a, *pe = &e;
  int only = begin(2);
  if (only < 0) { memset(&a, 0, sizeof a); memset(&e, 0, sizeof e);
    GARBAGE(a); GARBAGE(e);
  } else { vf_symbolic(&a, sizeof a, "same"); memcpy(&e, &a, sizeof e); }
  if (only < 0) {

  } else switch (only) {
    case 0: ONE_VAL(a.v, e.v, "d"); break;
    case 1: ONE_VAL(a.next, e.next, "p"); break;
  }
  static const struct leaf L[] = {
    {"", "v", -1},
    {"", "next", -1}
  };
  unsigned char d[2];
  d[0] = a.v != e.v;
  d[1] = a.next != e.next;
  int r = deref ? DEREF(struct_node)(&pa, &pe, name, buf) : cmp_struct_node(&a, &e, name, buf);
  if (!verdict(r, d, 2)) return;
  for (int k = 0; k < 2; k++) if (named(&L[k])) {
    int n = 0;
    switch (k) {
      case 0: if (TEXT(0)) n = snprintf(ref, sizeof ref, " value '%d', was expecting '%d'", a.v, e.v); break;
      case 1: if (TEXT(0)) n = snprintf(ref, sizeof ref, " value '%p', was expecting '%p'", a.next, e.next); break;
    }
    shows(d[k], n);
  }
  shown();
}
static void test_2(void)
{
  union either a, e, *pa = &a, *pe = &e;
  int only = begin(2);
  if (only < 0) { memset(&a, 0, sizeof a); memset(&e, 0, sizeof e);
    GARBAGE(a); GARBAGE(e);
  } else { vf_symbolic(&a, sizeof a, "same"); memcpy(&e, &a, sizeof e); }
  if (only < 0) {

  } else switch (only) {
    case 0: ONE_VAL(a.i, e.i, "d"); break;
    case 1: ONE_VAL(a.p, e.p, "p"); break;
  }
  static const struct leaf L[] = {
    {"", "i", -1},
    {"", "p", -1}
  };
  unsigned char d[2];
  d[0] = a.i != e.i;
  d[1] = a.p != e.p;
  int r = deref ? DEREF(union_either)(&pa, &pe, name, buf) : cmp_union_either(&a, &e, name, buf);
  if (!verdict(r, d, 2)) return;
  for (int k = 0; k < 2; k++) if (named(&L[k])) {
    int n = 0;
    switch (k) {
      case 0: if (TEXT(0)) n = snprintf(ref, sizeof ref, " value '%d', was expecting '%d'", a.i, e.i); break;
      case 1: if (TEXT(0)) n = snprintf(ref, sizeof ref, " value '%p', was expecting '%p'", a.p, e.p); break;
    }
    shows(d[k], n);
  }
  shown();
}
static void test_3(void)
{
  struct tptr a, e, *pa = &a, *pe = &e;
  int only = begin(14);
  if (only < 0) { memset(&a, 0, sizeof a); memset(&e, 0, sizeof e);
    GARBAGE(a); GARBAGE(e);
  } else { vf_symbolic(&a, sizeof a, "same"); memcpy(&e, &a, sizeof e); }
  if (only < 0) {

  } else switch (only) {
    case 0: ONE_VAL(a.np, e.np, "p"); break;
    case 1: ONE_VAL(a.cnp, e.cnp, "p"); break;
    case 2: ONE_VAL(a.cn, e.cn, "p"); break;
    case 3: ONE_VAL(a.ep, e.ep, "p"); break;
    case 4: ONE_VAL(a.hp, e.hp, "p"); break;
    case 5: ONE_VAL(a.h, e.h, "p"); break;
    case 6: ONE_VAL(a.col, e.col, "p"); break;
    case 7: ONE_VAL(a.hv, e.hv, "p"); break;
    case 8: ONE_VAL(a.npp, e.npp, "p"); break;
    case 9: ONE_VAL(a.cbs, e.cbs, "p"); break;
    case 10: ONE_VAL(a.pcb, e.pcb, "p"); break;
    case 11: ONE_VAL(a.pfw, e.pfw, "p"); break;
    case 12: ONE_VAL(a.cs2, e.cs2, "p"); break;
    case 13: ONE_VAL(a.ppc, e.ppc, "p"); break;
  }
  static const struct leaf L[] = {
    {"", "np", -1},
    {"", "cnp", -1},
    {"", "cn", -1},
    {"", "ep", -1},
    {"", "hp", -1},
    {"", "h", -1},
    {"", "col", -1},
    {"", "hv", -1},
    {"", "npp", -1},
    {"", "cbs", -1},
    {"", "pcb", -1},
    {"", "pfw", -1},
    {"", "cs2", -1},
    {"", "ppc", -1}
  };
  unsigned char d[14];
  d[0] = a.np != e.np;
  d[1] = a.cnp != e.cnp;
  d[2] = a.cn != e.cn;
  d[3] = a.ep != e.ep;
  d[4] = a.hp != e.hp;
  d[5] = a.h != e.h;
  d[6] = a.col != e.col;
  d[7] = a.hv != e.hv;
  d[8] = a.npp != e.npp;
  d[9] = a.cbs != e.cbs;
  d[10] = a.pcb != e.pcb;
  d[11] = a.pfw != e.pfw;
  d[12] = a.cs2 != e.cs2;
  d[13] = a.ppc != e.ppc;
  int r = deref ? DEREF(struct_tptr)(&pa, &pe, name, buf) : cmp_struct_tptr(&a, &e, name, buf);
  if (!verdict(r, d, 14)) return;
  for (int k = 0; k < 14; k++) if (named(&L[k])) {
    int n = 0;
    switch (k) {
      case 0: if (TEXT(0)) n = snprintf(ref, sizeof ref, " value '%p', was expecting '%p'", a.np, e.np); break;
      case 1: if (TEXT(0)) n = snprintf(ref, sizeof ref, " value '%p', was expecting '%p'", a.cnp, e.cnp); break;
      case 2: if (TEXT(0)) n = snprintf(ref, sizeof ref, " value '%p', was expecting '%p'", a.cn, e.cn); break;
      case 3: if (TEXT(0)) n = snprintf(ref, sizeof ref, " value '%p', was expecting '%p'", a.ep, e.ep); break;
      case 4: if (TEXT(0)) n = snprintf(ref, sizeof ref, " value '%p', was expecting '%p'", a.hp, e.hp); break;
      case 5: if (TEXT(0)) n = snprintf(ref, sizeof ref, " value '%p', was expecting '%p'", a.h, e.h); break;
      case 6: if (TEXT(0)) n = snprintf(ref, sizeof ref, " value '%p', was expecting '%p'", a.col, e.col); break;
      case 7: if (TEXT(0)) n = snprintf(ref, sizeof ref, " value '%p', was expecting '%p'", a.hv, e.hv); break;
      case 8: if (TEXT(0)) n = snprintf(ref, sizeof ref, " value '%p', was expecting '%p'", a.npp, e.npp); break;
      case 9: if (TEXT(0)) n = snprintf(ref, sizeof ref, " value '%p', was expecting '%p'", a.cbs, e.cbs); break;
      case 10: if (TEXT(0)) n = snprintf(ref, sizeof ref, " value '%p', was expecting '%p'", a.pcb, e.pcb); break;
      case 11: if (TEXT(0)) n = snprintf(ref, sizeof ref, " value '%p', was expecting '%p'", a.pfw, e.pfw); break;
      case 12: if (TEXT(0)) n = snprintf(ref, sizeof ref, " value '%p', was expecting '%p'", a.cs2, e.cs2); break;
      case 13: if (TEXT(0)) n = snprintf(ref, sizeof ref, " value '%p', was expecting '%p'", a.ppc, e.ppc); break;
    }
    shows(d[k], n);
  }
  shown();
}
static void test_4(void)
{
  struct tarr a, e, *pa = &a, *pe = &e;
  int only = begin(15);
  if (only < 0) { memset(&a, 0, sizeof a); memset(&e, 0, sizeof e);
    GARBAGE(a); GARBAGE(e);
  } else { vf_symbolic(&a, sizeof a, "same"); memcpy(&e, &a, sizeof e); }
  if (only < 0) {

  } else switch (only) {
    case 0: ONE_VAL(a.a[0], e.a[0], "p"); break;
    case 1: ONE_VAL(a.a[1], e.a[1], "p"); break;
    case 2: ONE_VAL(a.f[0], e.f[0], "p"); break;
    case 3: ONE_VAL(a.f[1], e.f[1], "p"); break;
    case 4: ONE_VAL(a.c[0], e.c[0], "p"); break;
    case 5: ONE_VAL(a.two[0].a, e.two[0].a, "hi"); break;
    case 6: ONE_VAL(a.two[0].b, e.two[0].b, "c"); break;
    case 7: ONE_VAL(a.two[1].a, e.two[1].a, "hi"); break;
    case 8: ONE_VAL(a.two[1].b, e.two[1].b, "c"); break;
    case 9: ONE_VAL(a.three[0], e.three[0], "u"); break;
    case 10: ONE_VAL(a.three[1], e.three[1], "u"); break;
    case 11: ONE_VAL(a.three[2], e.three[2], "u"); break;
    case 12: ONE_VAL(a.n[0], e.n[0], "p"); break;
    case 13: ONE_VAL(a.n[1], e.n[1], "p"); break;
    case 14: ONE_VAL(a.end, e.end, "c"); break;
  }
  static const struct leaf L[] = {
    {"", "a", 0},
    {"", "a", 1},
    {"", "f", 0},
    {"", "f", 1},
    {"", "c", 0},
    {".two", "a", -1},
    {".two", "b", -1},
    {".two", "a", -1},
    {".two", "b", -1},
    {"", "three", 0},
    {"", "three", 1},
    {"", "three", 2},
    {"", "n", 0},
    {"", "n", 1},
    {"", "end", -1}
  };
  unsigned char d[15];
  d[0] = a.a[0] != e.a[0];
  d[1] = a.a[1] != e.a[1];
  d[2] = a.f[0] != e.f[0];
  d[3] = a.f[1] != e.f[1];
  d[4] = a.c[0] != e.c[0];
  d[5] = a.two[0].a != e.two[0].a;
  d[6] = a.two[0].b != e.two[0].b;
  d[7] = a.two[1].a != e.two[1].a;
  d[8] = a.two[1].b != e.two[1].b;
  d[9] = a.three[0] != e.three[0];
  d[10] = a.three[1] != e.three[1];
  d[11] = a.three[2] != e.three[2];
  d[12] = a.n[0] != e.n[0];
  d[13] = a.n[1] != e.n[1];
  d[14] = a.end != e.end;
  int r = deref ? DEREF(struct_tarr)(&pa, &pe, name, buf) : cmp_struct_tarr(&a, &e, name, buf);
  if (!verdict(r, d, 15)) return;
  for (int k = 0; k < 15; k++) if (named(&L[k])) {
    int n = 0;
    switch (k) {
      case 0: if (TEXT(0)) n = snprintf(ref, sizeof ref, " value '%p', was expecting '%p'", a.a[0], e.a[0]); break;
      case 1: if (TEXT(0)) n = snprintf(ref, sizeof ref, " value '%p', was expecting '%p'", a.a[1], e.a[1]); break;
      case 2: if (TEXT(0)) n = snprintf(ref, sizeof ref, " value '%p', was expecting '%p'", a.f[0], e.f[0]); break;
      case 3: if (TEXT(0)) n = snprintf(ref, sizeof ref, " value '%p', was expecting '%p'", a.f[1], e.f[1]); break;
      case 4: if (TEXT(0)) n = snprintf(ref, sizeof ref, " value '%p', was expecting '%p'", a.c[0], e.c[0]); break;
      case 9: if (TEXT(0)) n = snprintf(ref, sizeof ref, " value '%u', was expecting '%u'", a.three[0], e.three[0]); break;
      case 10: if (TEXT(0)) n = snprintf(ref, sizeof ref, " value '%u', was expecting '%u'", a.three[1], e.three[1]); break;
      case 11: if (TEXT(0)) n = snprintf(ref, sizeof ref, " value '%u', was expecting '%u'", a.three[2], e.three[2]); break;
      case 12: if (TEXT(0)) n = snprintf(ref, sizeof ref, " value '%p', was expecting '%p'", a.n[0], e.n[0]); break;
      case 13: if (TEXT(0)) n = snprintf(ref, sizeof ref, " value '%p', was expecting '%p'", a.n[1], e.n[1]); break;
      case 14: if (TEXT(0)) n = snprintf(ref, sizeof ref, " value '%c', was expecting '%c'", a.end, e.end); break;
    }
    shows(d[k], n);
  }
  shown();
}
static void test_5(void)
{
  struct tscal a, e, *pa = &a, *pe = &e;
  int only = begin(10);
  if (only < 0) { memset(&a, 0, sizeof a); memset(&e, 0, sizeof e);
    GARBAGE(a); GARBAGE(e);
  } else { vf_symbolic(&a, sizeof a, "same"); memcpy(&e, &a, sizeof e); }
  if (only < 0) {
    BOOL(a.fl); BOOL(e.fl);
  } else switch (only) {
    case 0: ONE_VAL(a.u, e.u, "u"); break;
    case 1: ONE_VAL(a.cu, e.cu, "u"); break;
    case 2: ONE_BOOL(a.fl, e.fl, ""); break;
    case 3: ONE_VAL(a.colt, e.colt, "d"); break;
    case 4: ONE_VAL(a.ce, e.ce, "d"); break;
    case 5: ONE_VAL(a.vu, e.vu, ""); break;
    case 6: ONE_VAL(a.i8, e.i8, ""); break;
    case 7: ONE_VAL(a.u64, e.u64, "lu"); break;
    case 8: ONE_VAL(a.sz, e.sz, "lu"); break;
    case 9: ONE_VAL(a.ip, e.ip, "li"); break;
  }
  if (only >= 0) {
    if (only != 2) { memset((void *)&a.fl, 0, sizeof a.fl); memset((void *)&e.fl, 0, sizeof e.fl); }
  }
  static const struct leaf L[] = {
    {"", "u", -1},
    {"", "cu", -1},
    {"", "fl", -1},
    {"", "colt", -1},
    {"", "ce", -1},
    {"", "vu", -1},
    {"", "i8", -1},
    {"", "u64", -1},
    {"", "sz", -1},
    {"", "ip", -1}
  };
  unsigned char d[10];
  d[0] = a.u != e.u;
  d[1] = a.cu != e.cu;
  d[2] = a.fl != e.fl;
  d[3] = a.colt != e.colt;
  d[4] = a.ce != e.ce;
  d[5] = a.vu != e.vu;
  d[6] = a.i8 != e.i8;
  d[7] = a.u64 != e.u64;
  d[8] = a.sz != e.sz;
  d[9] = a.ip != e.ip;
  int r = deref ? DEREF(struct_tscal)(&pa, &pe, name, buf) : cmp_struct_tscal(&a, &e, name, buf);
  if (!verdict(r, d, 10)) return;
  for (int k = 0; k < 10; k++) if (named(&L[k])) {
    int n = 0;
    switch (k) {
      case 0: if (TEXT(0)) n = snprintf(ref, sizeof ref, " value '%u', was expecting '%u'", a.u, e.u); break;
      case 1: if (TEXT(0)) n = snprintf(ref, sizeof ref, " value '%u', was expecting '%u'", a.cu, e.cu); break;
      case 3: if (TEXT(0)) n = snprintf(ref, sizeof ref, " value '%d', was expecting '%d'", a.colt, e.colt); break;
      case 4: if (TEXT(0)) n = snprintf(ref, sizeof ref, " value '%d', was expecting '%d'", a.ce, e.ce); break;
      case 7: if (TEXT(0)) n = snprintf(ref, sizeof ref, " value '%lu', was expecting '%lu'", a.u64, e.u64); break;
      case 8: if (TEXT(0)) n = snprintf(ref, sizeof ref, " value '%lu', was expecting '%lu'", a.sz, e.sz); break;
      case 9: if (TEXT(0)) n = snprintf(ref, sizeof ref, " value '%li', was expecting '%li'", a.ip, e.ip); break;
    }
    shows(d[k], n);
  }
  shown();
}
static void test_6(void)
{
  struct tbits a, e, *pa = &a, *pe = &e;
  int only = begin(8);
  if (only < 0) { memset(&a, 0, sizeof a); memset(&e, 0, sizeof e);
    GARBAGE(a); GARBAGE(e);
  } else { vf_symbolic(&a, sizeof a, "same"); memcpy(&e, &a, sizeof e); }
  if (only < 0) {

  } else switch (only) {
    case 0: ONE_BF(a.e, e.e, "d"); break;
    case 1: ONE_BF(a.b, e.b, ""); break;
    case 2: ONE_BF(a.u, e.u, "u"); break;
    case 3: ONE_BF(a.ll, e.ll, "lli"); break;
    case 4: ONE_BF(a.ct, e.ct, "d"); break;
    case 5: ONE_BF(a.fl, e.fl, ""); break;
    case 6: ONE_BF(a.sc, e.sc, ""); break;
    case 7: ONE_VAL(a.us, e.us, "hu"); break;
  }
  static const struct leaf L[] = {
    {"", "e", -1},
    {"", "b", -1},
    {"", "u", -1},
    {"", "ll", -1},
    {"", "ct", -1},
    {"", "fl", -1},
    {"", "sc", -1},
    {"", "us", -1}
  };
  unsigned char d[8];
  d[0] = a.e != e.e;
  d[1] = a.b != e.b;
  d[2] = a.u != e.u;
  d[3] = a.ll != e.ll;
  d[4] = a.ct != e.ct;
  d[5] = a.fl != e.fl;
  d[6] = a.sc != e.sc;
  d[7] = a.us != e.us;
  int r = deref ? DEREF(struct_tbits)(&pa, &pe, name, buf) : cmp_struct_tbits(&a, &e, name, buf);
  if (!verdict(r, d, 8)) return;
  for (int k = 0; k < 8; k++) if (named(&L[k])) {
    int n = 0;
    switch (k) {
      case 0: if (TEXT(0)) n = snprintf(ref, sizeof ref, " value '%d', was expecting '%d'", (enum color)a.e, (enum color)e.e); break;
      case 2: if (TEXT(0)) n = snprintf(ref, sizeof ref, " value '%u', was expecting '%u'", (u32)a.u, (u32)e.u); break;
      case 3: if (TEXT(0)) n = snprintf(ref, sizeof ref, " value '%lli', was expecting '%lli'", (long long)a.ll, (long long)e.ll); break;
      case 4: if (TEXT(0)) n = snprintf(ref, sizeof ref, " value '%d', was expecting '%d'", (color_t)a.ct, (color_t)e.ct); break;
      case 7: if (TEXT(0)) n = snprintf(ref, sizeof ref, " value '%hu', was expecting '%hu'", a.us, e.us); break;
    }
    shows(d[k], n);
  }
  shown();
}
static void test_7(void)
{
  struct thole a, e, *pa = &a, *pe = &e;
  int only = begin(2);
  if (only < 0) { memset(&a, 0, sizeof a); memset(&e, 0, sizeof e);
    GARBAGE(a); GARBAGE(e);
  } else { vf_symbolic(&a, sizeof a, "same"); memcpy(&e, &a, sizeof e); }
  if (only < 0) {

  } else switch (only) {
    case 0: ONE_VAL(a.c, e.c, "c"); break;
    case 1: ONE_VAL(a.i, e.i, "d"); break;
  }
  static const struct leaf L[] = {
    {"", "c", -1},
    {"", "i", -1}
  };
  unsigned char d[2];
  d[0] = a.c != e.c;
  d[1] = a.i != e.i;
  int r = deref ? DEREF(struct_thole)(&pa, &pe, name, buf) : cmp_struct_thole(&a, &e, name, buf);
  if (!verdict(r, d, 2)) return;
  for (int k = 0; k < 2; k++) if (named(&L[k])) {
    int n = 0;
    switch (k) {
      case 0: if (TEXT(0)) n = snprintf(ref, sizeof ref, " value '%c', was expecting '%c'", a.c, e.c); break;
      case 1: if (TEXT(0)) n = snprintf(ref, sizeof ref, " value '%d', was expecting '%d'", a.i, e.i); break;
    }
    shows(d[k], n);
  }
  shown();
}
static void test_8(void)
{
  fwd_t a, e, *pa = &a, *pe = &e;
  int only = begin(2);
  if (only < 0) { memset(&a, 0, sizeof a); memset(&e, 0, sizeof e);
    GARBAGE(a); GARBAGE(e);
  } else { vf_symbolic(&a, sizeof a, "same"); memcpy(&e, &a, sizeof e); }
  if (only < 0) {

  } else switch (only) {
    case 0: ONE_VAL(a.s, e.s, "hi"); break;
    case 1: ONE_VAL(a.self, e.self, "p"); break;
  }
  static const struct leaf L[] = {
    {"", "s", -1},
    {"", "self", -1}
  };
  unsigned char d[2];
  d[0] = a.s != e.s;
  d[1] = a.self != e.self;
  int r = deref ? DEREF(fwd_t)(&pa, &pe, name, buf) : cmp_fwd_t(&a, &e, name, buf);
  if (!verdict(r, d, 2)) return;
  for (int k = 0; k < 2; k++) if (named(&L[k])) {
    int n = 0;
    switch (k) {
      case 0: if (TEXT(0)) n = snprintf(ref, sizeof ref, " value '%hi', was expecting '%hi'", a.s, e.s); break;
      case 1: if (TEXT(0)) n = snprintf(ref, sizeof ref, " value '%p', was expecting '%p'", a.self, e.self); break;
    }
    shows(d[k], n);
  }
  shown();
}
static void test_9(void)
{
  a a, e, *pa = &a, *pe = &e;
  int only = begin(1);
  if (only < 0) { memset(&a, 0, sizeof a); memset(&e, 0, sizeof e);
    GARBAGE(a); GARBAGE(e);
  } else { vf_symbolic(&a, sizeof a, "same"); memcpy(&e, &a, sizeof e); }
  if (only < 0) {

  } else switch (only) {
    case 0: ONE_VAL(a.x, e.x, "d"); break;
  }
  static const struct leaf L[] = {
    {"", "x", -1}
  };
  unsigned char d[1];
  d[0] = a.x != e.x;
  int r = deref ? DEREF(a)(&pa, &pe, name, buf) : cmp_a(&a, &e, name, buf);
  if (!verdict(r, d, 1)) return;
  for (int k = 0; k < 1; k++) if (named(&L[k])) {
    int n = 0;
    switch (k) {
      case 0: if (TEXT(0)) n = snprintf(ref, sizeof ref, " value '%d', was expecting '%d'", a.x, e.x); break;
    }
    shows(d[k], n);
  }
  shown();
}
static void test_10(void)
{
  struct a a, e, *pa = &a, *pe = &e;
  int only = begin(2);
  if (only < 0) { memset(&a, 0, sizeof a); memset(&e, 0, sizeof e);
    GARBAGE(a); GARBAGE(e);
  } else { vf_symbolic(&a, sizeof a, "same"); memcpy(&e, &a, sizeof e); }
  if (only < 0) {

  } else switch (only) {
    case 0: ONE_VAL(a.m.x, e.m.x, "d"); break;
    case 1: ONE_VAL(a.n, e.n, "hi"); break;
  }
  static const struct leaf L[] = {
    {".m", "x", -1},
    {"", "n", -1}
  };
  unsigned char d[2];
  d[0] = a.m.x != e.m.x;
  d[1] = a.n != e.n;
  int r = deref ? DEREF(struct_a)(&pa, &pe, name, buf) : cmp_struct_a(&a, &e, name, buf);
  if (!verdict(r, d, 2)) return;
  for (int k = 0; k < 2; k++) if (named(&L[k])) {
    int n = 0;
    switch (k) {
      case 0: if (TEXT(0)) n = snprintf(ref, sizeof ref, " value '%d', was expecting '%d'", a.m.x, e.m.x); break;
      case 1: if (TEXT(0)) n = snprintf(ref, sizeof ref, " value '%hi', was expecting '%hi'", a.n, e.n); break;
    }
    shows(d[k], n);
  }
  shown();
}
static void test_11(void)
{
  struct c_d a, e, *pa = &a, *pe = &e;
  int only = begin(1);
  if (only < 0) { memset(&a, 0, sizeof a); memset(&e, 0, sizeof e);
    GARBAGE(a); GARBAGE(e);
  } else { vf_symbolic(&a, sizeof a, "same"); memcpy(&e, &a, sizeof e); }
  if (only < 0) {

  } else switch (only) {
    case 0: ONE_VAL(a.x, e.x, "d"); break;
  }
  static const struct leaf L[] = {
    {"", "x", -1}
  };
  unsigned char d[1];
  d[0] = a.x != e.x;
  int r = deref ? DEREF(struct_c_d)(&pa, &pe, name, buf) : cmp_struct_c_d(&a, &e, name, buf);
  if (!verdict(r, d, 1)) return;
  for (int k = 0; k < 1; k++) if (named(&L[k])) {
    int n = 0;
    switch (k) {
      case 0: if (TEXT(0)) n = snprintf(ref, sizeof ref, " value '%d', was expecting '%d'", a.x, e.x); break;
    }
    shows(d[k], n);
  }
  shown();
}
static void test_12(void)
{
  d_ a, e, *pa = &a, *pe = &e;
  int only = begin(1);
  if (only < 0) { memset(&a, 0, sizeof a); memset(&e, 0, sizeof e);
    GARBAGE(a); GARBAGE(e);
  } else { vf_symbolic(&a, sizeof a, "same"); memcpy(&e, &a, sizeof e); }
  if (only < 0) {

  } else switch (only) {
    case 0: ONE_VAL(a.y, e.y, "li"); break;
  }
  static const struct leaf L[] = {
    {"", "y", -1}
  };
  unsigned char d[1];
  d[0] = a.y != e.y;
  int r = deref ? DEREF(d_)(&pa, &pe, name, buf) : cmp_d_(&a, &e, name, buf);
  if (!verdict(r, d, 1)) return;
  for (int k = 0; k < 1; k++) if (named(&L[k])) {
    int n = 0;
    switch (k) {
      case 0: if (TEXT(0)) n = snprintf(ref, sizeof ref, " value '%li', was expecting '%li'", a.y, e.y); break;
    }
    shows(d[k], n);
  }
  shown();
}
static void test_13(void)
{
  e_ a, e, *pa = &a, *pe = &e;
  int only = begin(1);
  if (only < 0) { memset(&a, 0, sizeof a); memset(&e, 0, sizeof e);
    GARBAGE(a); GARBAGE(e);
  } else { vf_symbolic(&a, sizeof a, "same"); memcpy(&e, &a, sizeof e); }
  if (only < 0) {

  } else switch (only) {
    case 0: ONE_VAL(a.x, e.x, "c"); break;
  }
  static const struct leaf L[] = {
    {"", "x", -1}
  };
  unsigned char d[1];
  d[0] = a.x != e.x;
  int r = deref ? DEREF(e_)(&pa, &pe, name, buf) : cmp_e_(&a, &e, name, buf);
  if (!verdict(r, d, 1)) return;
  for (int k = 0; k < 1; k++) if (named(&L[k])) {
    int n = 0;
    switch (k) {
      case 0: if (TEXT(0)) n = snprintf(ref, sizeof ref, " value '%c', was expecting '%c'", a.x, e.x); break;
    }
    shows(d[k], n);
  }
  shown();
}
static void test_14(void)
{
  struct _e a, e, *pa = &a, *pe = &e;
  int only = begin(2);
  if (only < 0) { memset(&a, 0, sizeof a); memset(&e, 0, sizeof e);
    GARBAGE(a); GARBAGE(e);
  } else { vf_symbolic(&a, sizeof a, "same"); memcpy(&e, &a, sizeof e); }
  if (only < 0) {

  } else switch (only) {
    case 0: ONE_VAL(a.z, e.z, "hi"); break;
    case 1: ONE_VAL(a.zz, e.zz, "c"); break;
  }
  static const struct leaf L[] = {
    {"", "z", -1},
    {"", "zz", -1}
  };
  unsigned char d[2];
  d[0] = a.z != e.z;
  d[1] = a.zz != e.zz;
  int r = deref ? DEREF(struct__e)(&pa, &pe, name, buf) : cmp_struct__e(&a, &e, name, buf);
  if (!verdict(r, d, 2)) return;
  for (int k = 0; k < 2; k++) if (named(&L[k])) {
    int n = 0;
    switch (k) {
      case 0: if (TEXT(0)) n = snprintf(ref, sizeof ref, " value '%hi', was expecting '%hi'", a.z, e.z); break;
      case 1: if (TEXT(0)) n = snprintf(ref, sizeof ref, " value '%c', was expecting '%c'", a.zz, e.zz); break;
    }
    shows(d[k], n);
  }
  shown();
}
static void test_15(void)
{
  struct inner a, e, *pa = &a, *pe = &e;
  int only = begin(2);
  if (only < 0) { memset(&a, 0, sizeof a); memset(&e, 0, sizeof e);
    GARBAGE(a); GARBAGE(e);
  } else { vf_symbolic(&a, sizeof a, "same"); memcpy(&e, &a, sizeof e); }
  if (only < 0) {

  } else switch (only) {
    case 0: ONE_VAL(a.owner, e.owner, "p"); break;
    case 1: ONE_VAL(a.k, e.k, "d"); break;
  }
  static const struct leaf L[] = {
    {"", "owner", -1},
    {"", "k", -1}
  };
  unsigned char d[2];
  d[0] = a.owner != e.owner;
  d[1] = a.k != e.k;
  int r = deref ? DEREF(struct_inner)(&pa, &pe, name, buf) : cmp_struct_inner(&a, &e, name, buf);
  if (!verdict(r, d, 2)) return;
  for (int k = 0; k < 2; k++) if (named(&L[k])) {
    int n = 0;
    switch (k) {
      case 0: if (TEXT(0)) n = snprintf(ref, sizeof ref, " value '%p', was expecting '%p'", a.owner, e.owner); break;
      case 1: if (TEXT(0)) n = snprintf(ref, sizeof ref, " value '%d', was expecting '%d'", a.k, e.k); break;
    }
    shows(d[k], n);
  }
  shown();
}
static void test_16(void)
{
  struct wraps a, e, *pa = &a, *pe = &e;
  int only = begin(7);
  if (only < 0) { memset(&a, 0, sizeof a); memset(&e, 0, sizeof e);
    GARBAGE(a); GARBAGE(e);
  } else { vf_symbolic(&a, sizeof a, "same"); memcpy(&e, &a, sizeof e); }
  if (only < 0) {

  } else switch (only) {
    case 0: ONE_VAL(a.in.owner, e.in.owner, "p"); break;
    case 1: ONE_VAL(a.in.k, e.in.k, "d"); break;
    case 2: ONE_VAL(a.more[0].owner, e.more[0].owner, "p"); break;
    case 3: ONE_VAL(a.more[0].k, e.more[0].k, "d"); break;
    case 4: ONE_VAL(a.more[1].owner, e.more[1].owner, "p"); break;
    case 5: ONE_VAL(a.more[1].k, e.more[1].k, "d"); break;
    case 6: ONE_VAL(a.z, e.z, "d"); break;
  }
  static const struct leaf L[] = {
    {".in", "owner", -1},
    {".in", "k", -1},
    {".more", "owner", -1},
    {".more", "k", -1},
    {".more", "owner", -1},
    {".more", "k", -1},
    {"", "z", -1}
  };
  unsigned char d[7];
  d[0] = a.in.owner != e.in.owner;
  d[1] = a.in.k != e.in.k;
  d[2] = a.more[0].owner != e.more[0].owner;
  d[3] = a.more[0].k != e.more[0].k;
  d[4] = a.more[1].owner != e.more[1].owner;
  d[5] = a.more[1].k != e.more[1].k;
  d[6] = a.z != e.z;
  int r = deref ? DEREF(struct_wraps)(&pa, &pe, name, buf) : cmp_struct_wraps(&a, &e, name, buf);
  if (!verdict(r, d, 7)) return;
  for (int k = 0; k < 7; k++) if (named(&L[k])) {
    int n = 0;
    switch (k) {
      case 0: if (TEXT(0)) n = snprintf(ref, sizeof ref, " value '%p', was expecting '%p'", a.in.owner, e.in.owner); break;
      case 1: if (TEXT(0)) n = snprintf(ref, sizeof ref, " value '%d', was expecting '%d'", a.in.k, e.in.k); break;
      case 6: if (TEXT(0)) n = snprintf(ref, sizeof ref, " value '%d', was expecting '%d'", a.z, e.z); break;
    }
    shows(d[k], n);
  }
  shown();
}
static void test_17(void)
{
  struct emb2 a, e, *pa = &a, *pe = &e;
  int only = begin(9);
  if (only < 0) { memset(&a, 0, sizeof a); memset(&e, 0, sizeof e);
    GARBAGE(a); GARBAGE(e);
  } else { memset(&a, 0, sizeof a); memset(&e, 0, sizeof e); }
  if (only < 0) {

  } else switch (only) {
    case 0: ONE_VAL(a.p.x, e.p.x, "d"); break;
    case 1: ONE_VAL(a.p.y, e.p.y, "hi"); break;
    case 2: ONE_VAL(a.q[0].x, e.q[0].x, "c"); break;
    case 3: ONE_VAL(a.q[0].p.y, e.q[0].p.y, "c"); break;
    case 4: ONE_VAL(a.q[0].p.z, e.q[0].p.z, "hu"); break;
    case 5: ONE_VAL(a.q[1].x, e.q[1].x, "c"); break;
    case 6: ONE_VAL(a.q[1].p.y, e.q[1].p.y, "c"); break;
    case 7: ONE_VAL(a.q[1].p.z, e.q[1].p.z, "hu"); break;
    case 8: ONE_VAL(a.x, e.x, "d"); break;
  }
  static const struct leaf L[] = {
    {".p", "x", -1},
    {".p", "y", -1},
    {".q", "x", -1},
    {".q.p", "y", -1},
    {".q.p", "z", -1},
    {".q", "x", -1},
    {".q.p", "y", -1},
    {".q.p", "z", -1},
    {"", "x", -1}
  };
  unsigned char d[9];
  d[0] = a.p.x != e.p.x;
  d[1] = a.p.y != e.p.y;
  d[2] = a.q[0].x != e.q[0].x;
  d[3] = a.q[0].p.y != e.q[0].p.y;
  d[4] = a.q[0].p.z != e.q[0].p.z;
  d[5] = a.q[1].x != e.q[1].x;
  d[6] = a.q[1].p.y != e.q[1].p.y;
  d[7] = a.q[1].p.z != e.q[1].p.z;
  d[8] = a.x != e.x;
  int r = deref ? DEREF(struct_emb2)(&pa, &pe, name, buf) : cmp_struct_emb2(&a, &e, name, buf);
  if (!verdict(r, d, 9)) return;
  for (int k = 0; k < 9; k++) if (named(&L[k])) {
    int n = 0;
    switch (k) {
      case 0: if (TEXT(0)) n = snprintf(ref, sizeof ref, " value '%d', was expecting '%d'", a.p.x, e.p.x); break;
      case 1: if (TEXT(0)) n = snprintf(ref, sizeof ref, " value '%hi', was expecting '%hi'", a.p.y, e.p.y); break;
      case 8: if (TEXT(0)) n = snprintf(ref, sizeof ref, " value '%d', was expecting '%d'", a.x, e.x); break;
    }
    shows(d[k], n);
  }
  shown();
}
static void test_18(void)
{
  tu_t a, e, *pa = &a, *pe = &e;
  int only = begin(4);
  if (only < 0) { memset(&a, 0, sizeof a); memset(&e, 0, sizeof e);
    GARBAGE(a); GARBAGE(e);
  } else { vf_symbolic(&a, sizeof a, "same"); memcpy(&e, &a, sizeof e); }
  if (only < 0) {

  } else switch (only) {
    case 0: ONE_VAL(a.p, e.p, "p"); break;
    case 1: ONE_VAL(a.u, e.u, "u"); break;
    case 2: ONE_VAL(a.s.x, e.s.x, "c"); break;
    case 3: ONE_VAL(a.s.y, e.s.y, "c"); break;
  }
  static const struct leaf L[] = {
    {"", "p", -1},
    {"", "u", -1},
    {".s", "x", -1},
    {".s", "y", -1}
  };
  unsigned char d[4];
  d[0] = a.p != e.p;
  d[1] = a.u != e.u;
  d[2] = a.s.x != e.s.x;
  d[3] = a.s.y != e.s.y;
  int r = deref ? DEREF(tu_t)(&pa, &pe, name, buf) : cmp_tu_t(&a, &e, name, buf);
  if (!verdict(r, d, 4)) return;
  for (int k = 0; k < 4; k++) if (named(&L[k])) {
    int n = 0;
    switch (k) {
      case 0: if (TEXT(0)) n = snprintf(ref, sizeof ref, " value '%p', was expecting '%p'", a.p, e.p); break;
      case 1: if (TEXT(0)) n = snprintf(ref, sizeof ref, " value '%u', was expecting '%u'", a.u, e.u); break;
      case 2: if (TEXT(0)) n = snprintf(ref, sizeof ref, " value '%c', was expecting '%c'", a.s.x, e.s.x); break;
      case 3: if (TEXT(0)) n = snprintf(ref, sizeof ref, " value '%c', was expecting '%c'", a.s.y, e.s.y); break;
    }
    shows(d[k], n);
  }
  shown();
}
void vf_main(void)
{
  switch (vf_choice(19, "type")) {
    case 0: test_0(); break;
    case 1: test_1(); break;
    case 2: test_2(); break;
    case 3: test_3(); break;
    case 4: test_4(); break;
    case 5: test_5(); break;
    case 6: test_6(); break;
    case 7: test_7(); break;
    case 8: test_8(); break;
    case 9: test_9(); break;
    case 10: test_10(); break;
    case 11: test_11(); break;
    case 12: test_12(); break;
    case 13: test_13(); break;
    case 14: test_14(); break;
    case 15: test_15(); break;
    case 16: test_16(); break;
    case 17: test_17(); break;
    case 18: test_18(); break;
  }
}
