// Written by tools/mkcmp.py.  Generated comparators of shapes/cmps.h: verdict and message.
#include "cmp.h"
#ifndef GENTYPES
#include "cmps.h"
#endif
#include "easyMock_cmps.h"
static void test_0(void)
{
  struct prim a, e, *pa = &a, *pe = &e;
  int only = begin(14);
  if (only < 0) { memset(&a, 0, sizeof a); memset(&e, 0, sizeof e);
    GARBAGE(a); GARBAGE(e);
  } else { vf_symbolic(&a, sizeof a, "same"); memcpy(&e, &a, sizeof e); }
  if (only < 0) {
    LD(a.ld); LD(e.ld);
    BOOL(a.b); BOOL(e.b);
  } else switch (only) {
    case 0: ONE_VAL(a.c, e.c, "c"); break;
    case 1: ONE_VAL(a.uc, e.uc, "c"); break;
    case 2: ONE_VAL(a.s, e.s, "hi"); break;
    case 3: ONE_VAL(a.us, e.us, "hu"); break;
    case 4: ONE_VAL(a.i, e.i, "d"); break;
    case 5: ONE_VAL(a.u, e.u, "u"); break;
    case 6: ONE_VAL(a.l, e.l, "li"); break;
    case 7: ONE_VAL(a.ul, e.ul, "lu"); break;
    case 8: ONE_VAL(a.ll, e.ll, "lli"); break;
    case 9: ONE_VAL(a.ull, e.ull, "llu"); break;
    case 10: ONE_FLT(a.f, e.f, "f"); break;
    case 11: ONE_FLT(a.d, e.d, "f"); break;
    case 12: ONE_LD(a.ld, e.ld, ""); break;
    case 13: ONE_BOOL(a.b, e.b, ""); break;
  }
  if (only >= 0) {
    if (only != 10) { memset((void *)&a.f, 0, sizeof a.f); memset((void *)&e.f, 0, sizeof e.f); }
    if (only != 11) { memset((void *)&a.d, 0, sizeof a.d); memset((void *)&e.d, 0, sizeof e.d); }
    if (only != 12) { memset((void *)&a.ld, 0, sizeof a.ld); memset((void *)&e.ld, 0, sizeof e.ld); }
    if (only != 13) { memset((void *)&a.b, 0, sizeof a.b); memset((void *)&e.b, 0, sizeof e.b); }
  }
  static const struct leaf L[] = {
    {"", "c", -1},
    {"", "uc", -1},
    {"", "s", -1},
    {"", "us", -1},
    {"", "i", -1},
    {"", "u", -1},
    {"", "l", -1},
    {"", "ul", -1},
    {"", "ll", -1},
    {"", "ull", -1},
    {"", "f", -1},
    {"", "d", -1},
    {"", "ld", -1},
    {"", "b", -1}
  };
  unsigned char d[14];
  d[0] = a.c != e.c;
  d[1] = a.uc != e.uc;
  d[2] = a.s != e.s;
  d[3] = a.us != e.us;
  d[4] = a.i != e.i;
  d[5] = a.u != e.u;
  d[6] = a.l != e.l;
  d[7] = a.ul != e.ul;
  d[8] = a.ll != e.ll;
  d[9] = a.ull != e.ull;
  d[10] = a.f != e.f;
  d[11] = a.d != e.d;
  d[12] = a.ld != e.ld;
  d[13] = a.b != e.b;
  int r = deref ? DEREF(struct_prim)(&pa, &pe, name, buf) : cmp_struct_prim(&a, &e, name, buf);
  if (!verdict(r, d, 14)) return;
  for (int k = 0; k < 14; k++) if (named(&L[k])) {
    int n = 0;
    switch (k) {
      case 0: if (TEXT(0)) n = snprintf(ref, sizeof ref, " value '%c', was expecting '%c'", a.c, e.c); break;
      case 1: if (TEXT(0)) n = snprintf(ref, sizeof ref, " value '%c', was expecting '%c'", a.uc, e.uc); break;
      case 2: if (TEXT(0)) n = snprintf(ref, sizeof ref, " value '%hi', was expecting '%hi'", a.s, e.s); break;
      case 3: if (TEXT(0)) n = snprintf(ref, sizeof ref, " value '%hu', was expecting '%hu'", a.us, e.us); break;
      case 4: if (TEXT(0)) n = snprintf(ref, sizeof ref, " value '%d', was expecting '%d'", a.i, e.i); break;
      case 5: if (TEXT(0)) n = snprintf(ref, sizeof ref, " value '%u', was expecting '%u'", a.u, e.u); break;
      case 6: if (TEXT(0)) n = snprintf(ref, sizeof ref, " value '%li', was expecting '%li'", a.l, e.l); break;
      case 7: if (TEXT(0)) n = snprintf(ref, sizeof ref, " value '%lu', was expecting '%lu'", a.ul, e.ul); break;
      case 8: if (TEXT(0)) n = snprintf(ref, sizeof ref, " value '%lli', was expecting '%lli'", a.ll, e.ll); break;
      case 9: if (TEXT(0)) n = snprintf(ref, sizeof ref, " value '%llu', was expecting '%llu'", a.ull, e.ull); break;
      case 10: if (TEXT(1)) n = snprintf(ref, sizeof ref, " value '%f', was expecting '%f'", a.f, e.f); break;
      case 11: if (TEXT(1)) n = snprintf(ref, sizeof ref, " value '%f', was expecting '%f'", a.d, e.d); break;
    }
    shows(d[k], n);
  }
  shown();
}
static void test_1(void)
{
  pair_t a, e, *pa = &a, *pe = &e;
  int only = begin(2);
  if (only < 0) { memset(&a, 0, sizeof a); memset(&e, 0, sizeof e);
    GARBAGE(a); GARBAGE(e);
  } else { vf_symbolic(&a, sizeof a, "same"); memcpy(&e, &a, sizeof e); }
  if (only < 0) {

  } else switch (only) {
    case 0: ONE_VAL(a.a, e.a, "hi"); break;
    case 1: ONE_VAL(a.b, e.b, "c"); break;
  }
  static const struct leaf L[] = {
    {"", "a", -1},
    {"", "b", -1}
  };
  unsigned char d[2];
  d[0] = a.a != e.a;
  d[1] = a.b != e.b;
  int r = deref ? DEREF(pair_t)(&pa, &pe, name, buf) : cmp_pair_t(&a, &e, name, buf);
  if (!verdict(r, d, 2)) return;
  for (int k = 0; k < 2; k++) if (named(&L[k])) {
    int n = 0;
    switch (k) {
      case 0: if (TEXT(0)) n = snprintf(ref, sizeof ref, " value '%hi', was expecting '%hi'", a.a, e.a); break;
      case 1: if (TEXT(0)) n = snprintf(ref, sizeof ref, " value '%c', was expecting '%c'", a.b, e.b); break;
    }
    shows(d[k], n);
  }
  shown();
}
static void test_2(void)
{
  struct ptrs a, e, *pa = &a, *pe = &e;
  int only = begin(10);
  if (only < 0) { memset(&a, 0, sizeof a); memset(&e, 0, sizeof e);
    GARBAGE(a); GARBAGE(e);
  } else { vf_symbolic(&a, sizeof a, "same"); memcpy(&e, &a, sizeof e); }
  if (only < 0) {

  } else switch (only) {
    case 0: ONE_VAL(a.p, e.p, "p"); break;
    case 1: ONE_VAL(a.o, e.o, "p"); break;
    case 2: ONE_VAL(a.cs, e.cs, "p"); break;
    case 3: ONE_VAL(a.v, e.v, "p"); break;
    case 4: ONE_VAL(a.cb, e.cb, "p"); break;
    case 5: ONE_VAL(a.e, e.e, "d"); break;
    case 6: ONE_VAL(a.et, e.et, ""); break;
    case 7: ONE_VAL(a.pp, e.pp, "p"); break;
    case 8: ONE_VAL(a.cb2, e.cb2, "p"); break;
    case 9: ONE_VAL(a.pt, e.pt, "p"); break;
  }
  static const struct leaf L[] = {
    {"", "p", -1},
    {"", "o", -1},
    {"", "cs", -1},
    {"", "v", -1},
    {"", "cb", -1},
    {"", "e", -1},
    {"", "et", -1},
    {"", "pp", -1},
    {"", "cb2", -1},
    {"", "pt", -1}
  };
  unsigned char d[10];
  d[0] = a.p != e.p;
  d[1] = a.o != e.o;
  d[2] = a.cs != e.cs;
  d[3] = a.v != e.v;
  d[4] = a.cb != e.cb;
  d[5] = a.e != e.e;
  d[6] = a.et != e.et;
  d[7] = a.pp != e.pp;
  d[8] = a.cb2 != e.cb2;
  d[9] = a.pt != e.pt;
  int r = deref ? DEREF(struct_ptrs)(&pa, &pe, name, buf) : cmp_struct_ptrs(&a, &e, name, buf);
  if (!verdict(r, d, 10)) return;
  for (int k = 0; k < 10; k++) if (named(&L[k])) {
    int n = 0;
    switch (k) {
      case 0: if (TEXT(0)) n = snprintf(ref, sizeof ref, " value '%p', was expecting '%p'", a.p, e.p); break;
      case 1: if (TEXT(0)) n = snprintf(ref, sizeof ref, " value '%p', was expecting '%p'", a.o, e.o); break;
      case 2: if (TEXT(0)) n = snprintf(ref, sizeof ref, " value '%p', was expecting '%p'", a.cs, e.cs); break;
      case 3: if (TEXT(0)) n = snprintf(ref, sizeof ref, " value '%p', was expecting '%p'", a.v, e.v); break;
      case 4: if (TEXT(0)) n = snprintf(ref, sizeof ref, " value '%p', was expecting '%p'", a.cb, e.cb); break;
      case 5: if (TEXT(0)) n = snprintf(ref, sizeof ref, " value '%d', was expecting '%d'", a.e, e.e); break;
      case 7: if (TEXT(0)) n = snprintf(ref, sizeof ref, " value '%p', was expecting '%p'", a.pp, e.pp); break;
      case 8: if (TEXT(0)) n = snprintf(ref, sizeof ref, " value '%p', was expecting '%p'", a.cb2, e.cb2); break;
      case 9: if (TEXT(0)) n = snprintf(ref, sizeof ref, " value '%p', was expecting '%p'", a.pt, e.pt); break;
    }
    shows(d[k], n);
  }
  shown();
}
static void test_3(void)
{
  struct bitsy a, e, *pa = &a, *pe = &e;
  int only = begin(5);
  if (only < 0) { memset(&a, 0, sizeof a); memset(&e, 0, sizeof e);
    GARBAGE(a); GARBAGE(e);
  } else { vf_symbolic(&a, sizeof a, "same"); memcpy(&e, &a, sizeof e); }
  if (only < 0) {

  } else switch (only) {
    case 0: ONE_BF(a.a, e.a, "u"); break;
    case 1: ONE_BF(a.b, e.b, "d"); break;
    case 2: ONE_BF(a.c, e.c, "lu"); break;
    case 3: ONE_BF(a.d, e.d, "c"); break;
    case 4: ONE_VAL(a.tail, e.tail, "hi"); break;
  }
  static const struct leaf L[] = {
    {"", "a", -1},
    {"", "b", -1},
    {"", "c", -1},
    {"", "d", -1},
    {"", "tail", -1}
  };
  unsigned char d[5];
  d[0] = a.a != e.a;
  d[1] = a.b != e.b;
  d[2] = a.c != e.c;
  d[3] = a.d != e.d;
  d[4] = a.tail != e.tail;
  int r = deref ? DEREF(struct_bitsy)(&pa, &pe, name, buf) : cmp_struct_bitsy(&a, &e, name, buf);
  if (!verdict(r, d, 5)) return;
  for (int k = 0; k < 5; k++) if (named(&L[k])) {
    int n = 0;
    switch (k) {
      case 0: if (TEXT(0)) n = snprintf(ref, sizeof ref, " value '%u', was expecting '%u'", (unsigned int)a.a, (unsigned int)e.a); break;
      case 1: if (TEXT(0)) n = snprintf(ref, sizeof ref, " value '%d', was expecting '%d'", (int)a.b, (int)e.b); break;
      case 2: if (TEXT(0)) n = snprintf(ref, sizeof ref, " value '%lu', was expecting '%lu'", (unsigned long)a.c, (unsigned long)e.c); break;
      case 3: if (TEXT(0)) n = snprintf(ref, sizeof ref, " value '%c', was expecting '%c'", (unsigned char)a.d, (unsigned char)e.d); break;
      case 4: if (TEXT(0)) n = snprintf(ref, sizeof ref, " value '%hi', was expecting '%hi'", a.tail, e.tail); break;
    }
    shows(d[k], n);
  }
  shown();
}
static void test_4(void)
{
  struct arrs a, e, *pa = &a, *pe = &e;
  int only = begin(13);
  if (only < 0) { memset(&a, 0, sizeof a); memset(&e, 0, sizeof e);
    GARBAGE(a); GARBAGE(e);
  } else { vf_symbolic(&a, sizeof a, "same"); memcpy(&e, &a, sizeof e); }
  if (only < 0) {

  } else switch (only) {
    case 0: ONE_VAL(a.a[0], e.a[0], "d"); break;
    case 1: ONE_VAL(a.a[1], e.a[1], "d"); break;
    case 2: ONE_VAL(a.a[2], e.a[2], "d"); break;
    case 3: ONE_VAL(a.s[0], e.s[0], "c"); break;
    case 4: ONE_VAL(a.s[1], e.s[1], "c"); break;
    case 5: ONE_VAL(a.s[2], e.s[2], "c"); break;
    case 6: ONE_VAL(a.s[3], e.s[3], "c"); break;
    case 7: ONE_FLT(a.d[0], e.d[0], "f"); break;
    case 8: ONE_FLT(a.d[1], e.d[1], "f"); break;
    case 9: ONE_VAL(a.p[0], e.p[0], "p"); break;
    case 10: ONE_VAL(a.p[1], e.p[1], "p"); break;
    case 11: ONE_VAL(a.one[0], e.one[0], "u"); break;
    case 12: ONE_VAL(a.last, e.last, "hi"); break;
  }
  if (only >= 0) {
    if (only != 7) { memset((void *)&a.d[0], 0, sizeof a.d[0]); memset((void *)&e.d[0], 0, sizeof e.d[0]); }
    if (only != 8) { memset((void *)&a.d[1], 0, sizeof a.d[1]); memset((void *)&e.d[1], 0, sizeof e.d[1]); }
  }
  static const struct leaf L[] = {
    {"", "a", 0},
    {"", "a", 1},
    {"", "a", 2},
    {"", "s", 0},
    {"", "s", 1},
    {"", "s", 2},
    {"", "s", 3},
    {"", "d", 0},
    {"", "d", 1},
    {"", "p", 0},
    {"", "p", 1},
    {"", "one", 0},
    {"", "last", -1}
  };
  unsigned char d[13];
  d[0] = a.a[0] != e.a[0];
  d[1] = a.a[1] != e.a[1];
  d[2] = a.a[2] != e.a[2];
  d[3] = a.s[0] != e.s[0];
  d[4] = a.s[1] != e.s[1];
  d[5] = a.s[2] != e.s[2];
  d[6] = a.s[3] != e.s[3];
  d[7] = a.d[0] != e.d[0];
  d[8] = a.d[1] != e.d[1];
  d[9] = a.p[0] != e.p[0];
  d[10] = a.p[1] != e.p[1];
  d[11] = a.one[0] != e.one[0];
  d[12] = a.last != e.last;
  int r = deref ? DEREF(struct_arrs)(&pa, &pe, name, buf) : cmp_struct_arrs(&a, &e, name, buf);
  if (!verdict(r, d, 13)) return;
  for (int k = 0; k < 13; k++) if (named(&L[k])) {
    int n = 0;
    switch (k) {
      case 0: if (TEXT(0)) n = snprintf(ref, sizeof ref, " value '%d', was expecting '%d'", a.a[0], e.a[0]); break;
      case 1: if (TEXT(0)) n = snprintf(ref, sizeof ref, " value '%d', was expecting '%d'", a.a[1], e.a[1]); break;
      case 2: if (TEXT(0)) n = snprintf(ref, sizeof ref, " value '%d', was expecting '%d'", a.a[2], e.a[2]); break;
      case 3: if (TEXT(0)) n = snprintf(ref, sizeof ref, " value '%c', was expecting '%c'", a.s[0], e.s[0]); break;
      case 4: if (TEXT(0)) n = snprintf(ref, sizeof ref, " value '%c', was expecting '%c'", a.s[1], e.s[1]); break;
      case 5: if (TEXT(0)) n = snprintf(ref, sizeof ref, " value '%c', was expecting '%c'", a.s[2], e.s[2]); break;
      case 6: if (TEXT(0)) n = snprintf(ref, sizeof ref, " value '%c', was expecting '%c'", a.s[3], e.s[3]); break;
      case 7: if (TEXT(1)) n = snprintf(ref, sizeof ref, " value '%f', was expecting '%f'", a.d[0], e.d[0]); break;
      case 8: if (TEXT(1)) n = snprintf(ref, sizeof ref, " value '%f', was expecting '%f'", a.d[1], e.d[1]); break;
      case 9: if (TEXT(0)) n = snprintf(ref, sizeof ref, " value '%p', was expecting '%p'", a.p[0], e.p[0]); break;
      case 10: if (TEXT(0)) n = snprintf(ref, sizeof ref, " value '%p', was expecting '%p'", a.p[1], e.p[1]); break;
      case 11: if (TEXT(0)) n = snprintf(ref, sizeof ref, " value '%u', was expecting '%u'", a.one[0], e.one[0]); break;
      case 12: if (TEXT(0)) n = snprintf(ref, sizeof ref, " value '%hi', was expecting '%hi'", a.last, e.last); break;
    }
    shows(d[k], n);
  }
  shown();
}
static void test_5(void)
{
  struct misc a, e, *pa = &a, *pe = &e;
  int only = begin(7);
  if (only < 0) { memset(&a, 0, sizeof a); memset(&e, 0, sizeof e);
    GARBAGE(a); GARBAGE(e);
  } else { vf_symbolic(&a, sizeof a, "same"); memcpy(&e, &a, sizeof e); }
  if (only < 0) {

  } else switch (only) {
    case 0: ONE_VAL(a.u32, e.u32, "u"); break;
    case 1: ONE_VAL(a.ci, e.ci, "d"); break;
    case 2: ONE_VAL(a.vs, e.vs, "hi"); break;
    case 3: ONE_VAL(a.sc, e.sc, ""); break;
    case 4: ONE_VAL(a.next, e.next, "p"); break;
    case 5: ONE_VAL(a.cp, e.cp, "p"); break;
    case 6: ONE_VAL(a.pu, e.pu, "p"); break;
  }
  static const struct leaf L[] = {
    {"", "u32", -1},
    {"", "ci", -1},
    {"", "vs", -1},
    {"", "sc", -1},
    {"", "next", -1},
    {"", "cp", -1},
    {"", "pu", -1}
  };
  unsigned char d[7];
  d[0] = a.u32 != e.u32;
  d[1] = a.ci != e.ci;
  d[2] = a.vs != e.vs;
  d[3] = a.sc != e.sc;
  d[4] = a.next != e.next;
  d[5] = a.cp != e.cp;
  d[6] = a.pu != e.pu;
  int r = deref ? DEREF(struct_misc)(&pa, &pe, name, buf) : cmp_struct_misc(&a, &e, name, buf);
  if (!verdict(r, d, 7)) return;
  for (int k = 0; k < 7; k++) if (named(&L[k])) {
    int n = 0;
    switch (k) {
      case 0: if (TEXT(0)) n = snprintf(ref, sizeof ref, " value '%u', was expecting '%u'", a.u32, e.u32); break;
      case 1: if (TEXT(0)) n = snprintf(ref, sizeof ref, " value '%d', was expecting '%d'", a.ci, e.ci); break;
      case 2: if (TEXT(0)) n = snprintf(ref, sizeof ref, " value '%hi', was expecting '%hi'", a.vs, e.vs); break;
      case 4: if (TEXT(0)) n = snprintf(ref, sizeof ref, " value '%p', was expecting '%p'", a.next, e.next); break;
      case 5: if (TEXT(0)) n = snprintf(ref, sizeof ref, " value '%p', was expecting '%p'", a.cp, e.cp); break;
      case 6: if (TEXT(0)) n = snprintf(ref, sizeof ref, " value '%p', was expecting '%p'", a.pu, e.pu); break;
    }
    shows(d[k], n);
  }
  shown();
}
static void test_6(void)
{
  struct rec a, e, *pa = &a, *pe = &e;
  int only = begin(3);
  if (only < 0) { memset(&a, 0, sizeof a); memset(&e, 0, sizeof e);
    GARBAGE(a); GARBAGE(e);
  } else { vf_symbolic(&a, sizeof a, "same"); memcpy(&e, &a, sizeof e); }
  if (only < 0) {

  } else switch (only) {
    case 0: ONE_VAL(a.v, e.v, "d"); break;
    case 1: ONE_VAL(a.next, e.next, "p"); break;
    case 2: ONE_VAL(a.prev, e.prev, "p"); break;
  }
  static const struct leaf L[] = {
    {"", "v", -1},
    {"", "next", -1},
    {"", "prev", -1}
  };
  unsigned char d[3];
  d[0] = a.v != e.v;
  d[1] = a.next != e.next;
  d[2] = a.prev != e.prev;
  int r = deref ? DEREF(struct_rec)(&pa, &pe, name, buf) : cmp_struct_rec(&a, &e, name, buf);
  if (!verdict(r, d, 3)) return;
  for (int k = 0; k < 3; k++) if (named(&L[k])) {
    int n = 0;
    switch (k) {
      case 0: if (TEXT(0)) n = snprintf(ref, sizeof ref, " value '%d', was expecting '%d'", a.v, e.v); break;
      case 1: if (TEXT(0)) n = snprintf(ref, sizeof ref, " value '%p', was expecting '%p'", a.next, e.next); break;
      case 2: if (TEXT(0)) n = snprintf(ref, sizeof ref, " value '%p', was expecting '%p'", a.prev, e.prev); break;
    }
    shows(d[k], n);
  }
  shown();
}
static void test_7(void)
{
  struct bare a, e, *pa = &a, *pe = &e;
  int only = begin(1);
  if (only < 0) { memset(&a, 0, sizeof a); memset(&e, 0, sizeof e);
    GARBAGE(a); GARBAGE(e);
  } else { vf_symbolic(&a, sizeof a, "same"); memcpy(&e, &a, sizeof e); }
  if (only < 0) {

  } else switch (only) {
    case 0: ONE_VAL(a.only, e.only, "c"); break;
  }
  static const struct leaf L[] = {
    {"", "only", -1}
  };
  unsigned char d[1];
  d[0] = a.only != e.only;
  int r = deref ? DEREF(struct_bare)(&pa, &pe, name, buf) : cmp_struct_bare(&a, &e, name, buf);
  if (!verdict(r, d, 1)) return;
  for (int k = 0; k < 1; k++) if (named(&L[k])) {
    int n = 0;
    switch (k) {
      case 0: if (TEXT(0)) n = snprintf(ref, sizeof ref, " value '%c', was expecting '%c'", a.only, e.only); break;
    }
    shows(d[k], n);
  }
  shown();
}
void vf_main(void)
{
  switch (vf_choice(8, "type")) {
    case 0: test_0(); break;
    case 1: test_1(); break;
    case 2: test_2(); break;
    case 3: test_3(); break;
    case 4: test_4(); break;
    case 5: test_5(); break;
    case 6: test_6(); break;
    case 7: test_7(); break;
  }
}
