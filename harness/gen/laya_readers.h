// Written by tools/mklay.py.  Readers of the types of shapes/laya.h.
static unsigned long rd_0(const void *p, int k, int what)
{
  struct prim *q = (struct prim *)p;
  (void)q;
  switch (k) {
  case 0: return what ? TYPE(q->c) + 100 * sizeof(q->c) : (unsigned long)q->c;
  case 1: return what ? TYPE(q->uc) + 100 * sizeof(q->uc) : (unsigned long)q->uc;
  case 2: return what ? TYPE(q->s) + 100 * sizeof(q->s) : (unsigned long)q->s;
  case 3: return what ? TYPE(q->us) + 100 * sizeof(q->us) : (unsigned long)q->us;
  case 4: return what ? TYPE(q->i) + 100 * sizeof(q->i) : (unsigned long)q->i;
  case 5: return what ? TYPE(q->u) + 100 * sizeof(q->u) : (unsigned long)q->u;
  case 6: return what ? TYPE(q->l) + 100 * sizeof(q->l) : (unsigned long)q->l;
  case 7: return what ? TYPE(q->ul) + 100 * sizeof(q->ul) : (unsigned long)q->ul;
  case 8: return what ? TYPE(q->ll) + 100 * sizeof(q->ll) : (unsigned long)q->ll;
  case 9: return what ? TYPE(q->ull) + 100 * sizeof(q->ull) : (unsigned long)q->ull;
  case 10: return what ? TYPE(q->f) : bits(&q->f, 4);
  case 11: return what ? TYPE(q->d) : bits(&q->d, 8);
  case 12: return what ? TYPE(q->ld) : bits(&q->ld, 10);
  case 13: return what ? TYPE(q->b) : bits(&q->b, 1);
  default: return k == -1 ? sizeof *q : (unsigned long)__alignof__(*q);
  }
}
static unsigned long rd_1(const void *p, int k, int what)
{
  pair_t *q = (pair_t *)p;
  (void)q;
  switch (k) {
  case 0: return what ? TYPE(q->a) + 100 * sizeof(q->a) : (unsigned long)q->a;
  case 1: return what ? TYPE(q->b) + 100 * sizeof(q->b) : (unsigned long)q->b;
  default: return k == -1 ? sizeof *q : (unsigned long)__alignof__(*q);
  }
}
static unsigned long rd_2(const void *p, int k, int what)
{
  struct ptrs *q = (struct ptrs *)p;
  (void)q;
  switch (k) {
  case 0: return what ? TYPE(q->p) + 100 * sizeof(q->p) : (unsigned long)q->p;
  case 1: return what ? TYPE(q->o) + 100 * sizeof(q->o) : (unsigned long)q->o;
  case 2: return what ? TYPE(q->cs) + 100 * sizeof(q->cs) : (unsigned long)q->cs;
  case 3: return what ? TYPE(q->v) + 100 * sizeof(q->v) : (unsigned long)q->v;
  case 4: return what ? TYPE(q->cb) + 100 * sizeof(q->cb) : (unsigned long)q->cb;
  case 5: return what ? TYPE(q->e) + 100 * sizeof(q->e) : (unsigned long)q->e;
  case 6: return what ? TYPE(q->et) + 100 * sizeof(q->et) : (unsigned long)q->et;
  case 7: return what ? TYPE(q->pp) + 100 * sizeof(q->pp) : (unsigned long)q->pp;
  case 8: return what ? TYPE(q->cb2) + 100 * sizeof(q->cb2) : (unsigned long)q->cb2;
  case 9: return what ? TYPE(q->pt) + 100 * sizeof(q->pt) : (unsigned long)q->pt;
  default: return k == -1 ? sizeof *q : (unsigned long)__alignof__(*q);
  }
}
static unsigned long rd_3(const void *p, int k, int what)
{
  struct bitsy *q = (struct bitsy *)p;
  (void)q;
  switch (k) {
  case 0: return what ? 0 : (unsigned long)q->a;
  case 1: return what ? 0 : (unsigned long)q->b;
  case 2: return what ? 0 : (unsigned long)q->c;
  case 3: return what ? 0 : (unsigned long)q->d;
  case 4: return what ? TYPE(q->tail) + 100 * sizeof(q->tail) : (unsigned long)q->tail;
  default: return k == -1 ? sizeof *q : (unsigned long)__alignof__(*q);
  }
}
static unsigned long rd_4(const void *p, int k, int what)
{
  struct arrs *q = (struct arrs *)p;
  (void)q;
  switch (k) {
  case 0: return what ? TYPE(q->a[0]) + 100 * sizeof(q->a[0]) : (unsigned long)q->a[0];
  case 1: return what ? TYPE(q->a[1]) + 100 * sizeof(q->a[1]) : (unsigned long)q->a[1];
  case 2: return what ? TYPE(q->a[2]) + 100 * sizeof(q->a[2]) : (unsigned long)q->a[2];
  case 3: return what ? TYPE(q->s[0]) + 100 * sizeof(q->s[0]) : (unsigned long)q->s[0];
  case 4: return what ? TYPE(q->s[1]) + 100 * sizeof(q->s[1]) : (unsigned long)q->s[1];
  case 5: return what ? TYPE(q->s[2]) + 100 * sizeof(q->s[2]) : (unsigned long)q->s[2];
  case 6: return what ? TYPE(q->s[3]) + 100 * sizeof(q->s[3]) : (unsigned long)q->s[3];
  case 7: return what ? TYPE(q->d[0]) : bits(&q->d[0], 8);
  case 8: return what ? TYPE(q->d[1]) : bits(&q->d[1], 8);
  case 9: return what ? TYPE(q->p[0]) + 100 * sizeof(q->p[0]) : (unsigned long)q->p[0];
  case 10: return what ? TYPE(q->p[1]) + 100 * sizeof(q->p[1]) : (unsigned long)q->p[1];
  case 11: return what ? TYPE(q->one[0]) + 100 * sizeof(q->one[0]) : (unsigned long)q->one[0];
  case 12: return what ? TYPE(q->last) + 100 * sizeof(q->last) : (unsigned long)q->last;
  default: return k == -1 ? sizeof *q : (unsigned long)__alignof__(*q);
  }
}
static unsigned long rd_5(const void *p, int k, int what)
{
  struct misc *q = (struct misc *)p;
  (void)q;
  switch (k) {
  case 0: return what ? TYPE(q->u32) + 100 * sizeof(q->u32) : (unsigned long)q->u32;
  case 1: return what ? TYPE(q->ci) + 100 * sizeof(q->ci) : (unsigned long)q->ci;
  case 2: return what ? TYPE(q->vs) + 100 * sizeof(q->vs) : (unsigned long)q->vs;
  case 3: return what ? TYPE(q->sc) + 100 * sizeof(q->sc) : (unsigned long)q->sc;
  case 4: return what ? TYPE(q->next) + 100 * sizeof(q->next) : (unsigned long)q->next;
  case 5: return what ? TYPE(q->cp) + 100 * sizeof(q->cp) : (unsigned long)q->cp;
  case 6: return what ? TYPE(q->pu) + 100 * sizeof(q->pu) : (unsigned long)q->pu;
  default: return k == -1 ? sizeof *q : (unsigned long)__alignof__(*q);
  }
}
static unsigned long rd_6(const void *p, int k, int what)
{
  struct rec *q = (struct rec *)p;
  (void)q;
  switch (k) {
  case 0: return what ? TYPE(q->v) + 100 * sizeof(q->v) : (unsigned long)q->v;
  case 1: return what ? TYPE(q->next) + 100 * sizeof(q->next) : (unsigned long)q->next;
  case 2: return what ? TYPE(q->prev) + 100 * sizeof(q->prev) : (unsigned long)q->prev;
  default: return k == -1 ? sizeof *q : (unsigned long)__alignof__(*q);
  }
}
static unsigned long rd_7(const void *p, int k, int what)
{
  struct bare *q = (struct bare *)p;
  (void)q;
  switch (k) {
  case 0: return what ? TYPE(q->only) + 100 * sizeof(q->only) : (unsigned long)q->only;
  default: return k == -1 ? sizeof *q : (unsigned long)__alignof__(*q);
  }
}
static unsigned long rd_8(const void *p, int k, int what)
{
  nest_t *q = (nest_t *)p;
  (void)q;
  switch (k) {
  case 0: return what ? TYPE(q->x) + 100 * sizeof(q->x) : (unsigned long)q->x;
  case 1: return what ? TYPE(q->y.a) + 100 * sizeof(q->y.a) : (unsigned long)q->y.a;
  case 2: return what ? TYPE(q->y.b) + 100 * sizeof(q->y.b) : (unsigned long)q->y.b;
  case 3: return what ? TYPE(q->z.a[0]) + 100 * sizeof(q->z.a[0]) : (unsigned long)q->z.a[0];
  case 4: return what ? TYPE(q->z.a[1]) + 100 * sizeof(q->z.a[1]) : (unsigned long)q->z.a[1];
  case 5: return what ? TYPE(q->z.a[2]) + 100 * sizeof(q->z.a[2]) : (unsigned long)q->z.a[2];
  case 6: return what ? TYPE(q->z.s[0]) + 100 * sizeof(q->z.s[0]) : (unsigned long)q->z.s[0];
  case 7: return what ? TYPE(q->z.s[1]) + 100 * sizeof(q->z.s[1]) : (unsigned long)q->z.s[1];
  case 8: return what ? TYPE(q->z.s[2]) + 100 * sizeof(q->z.s[2]) : (unsigned long)q->z.s[2];
  case 9: return what ? TYPE(q->z.s[3]) + 100 * sizeof(q->z.s[3]) : (unsigned long)q->z.s[3];
  case 10: return what ? TYPE(q->z.d[0]) : bits(&q->z.d[0], 8);
  case 11: return what ? TYPE(q->z.d[1]) : bits(&q->z.d[1], 8);
  case 12: return what ? TYPE(q->z.p[0]) + 100 * sizeof(q->z.p[0]) : (unsigned long)q->z.p[0];
  case 13: return what ? TYPE(q->z.p[1]) + 100 * sizeof(q->z.p[1]) : (unsigned long)q->z.p[1];
  case 14: return what ? TYPE(q->z.one[0]) + 100 * sizeof(q->z.one[0]) : (unsigned long)q->z.one[0];
  case 15: return what ? TYPE(q->z.last) + 100 * sizeof(q->z.last) : (unsigned long)q->z.last;
  case 16: return what ? TYPE(q->w) + 100 * sizeof(q->w) : (unsigned long)q->w;
  default: return k == -1 ? sizeof *q : (unsigned long)__alignof__(*q);
  }
}
static unsigned long rd_9(const void *p, int k, int what)
{
  struct deep *q = (struct deep *)p;
  (void)q;
  switch (k) {
  case 0: return what ? TYPE(q->n.x) + 100 * sizeof(q->n.x) : (unsigned long)q->n.x;
  case 1: return what ? TYPE(q->n.y.a) + 100 * sizeof(q->n.y.a) : (unsigned long)q->n.y.a;
  case 2: return what ? TYPE(q->n.y.b) + 100 * sizeof(q->n.y.b) : (unsigned long)q->n.y.b;
  case 3: return what ? TYPE(q->n.z.a[0]) + 100 * sizeof(q->n.z.a[0]) : (unsigned long)q->n.z.a[0];
  case 4: return what ? TYPE(q->n.z.a[1]) + 100 * sizeof(q->n.z.a[1]) : (unsigned long)q->n.z.a[1];
  case 5: return what ? TYPE(q->n.z.a[2]) + 100 * sizeof(q->n.z.a[2]) : (unsigned long)q->n.z.a[2];
  case 6: return what ? TYPE(q->n.z.s[0]) + 100 * sizeof(q->n.z.s[0]) : (unsigned long)q->n.z.s[0];
  case 7: return what ? TYPE(q->n.z.s[1]) + 100 * sizeof(q->n.z.s[1]) : (unsigned long)q->n.z.s[1];
  case 8: return what ? TYPE(q->n.z.s[2]) + 100 * sizeof(q->n.z.s[2]) : (unsigned long)q->n.z.s[2];
  case 9: return what ? TYPE(q->n.z.s[3]) + 100 * sizeof(q->n.z.s[3]) : (unsigned long)q->n.z.s[3];
  case 10: return what ? TYPE(q->n.z.d[0]) : bits(&q->n.z.d[0], 8);
  case 11: return what ? TYPE(q->n.z.d[1]) : bits(&q->n.z.d[1], 8);
  case 12: return what ? TYPE(q->n.z.p[0]) + 100 * sizeof(q->n.z.p[0]) : (unsigned long)q->n.z.p[0];
  case 13: return what ? TYPE(q->n.z.p[1]) + 100 * sizeof(q->n.z.p[1]) : (unsigned long)q->n.z.p[1];
  case 14: return what ? TYPE(q->n.z.one[0]) + 100 * sizeof(q->n.z.one[0]) : (unsigned long)q->n.z.one[0];
  case 15: return what ? TYPE(q->n.z.last) + 100 * sizeof(q->n.z.last) : (unsigned long)q->n.z.last;
  case 16: return what ? TYPE(q->n.w) + 100 * sizeof(q->n.w) : (unsigned long)q->n.w;
  case 17: return what ? 0 : (unsigned long)q->bits.a;
  case 18: return what ? 0 : (unsigned long)q->bits.b;
  case 19: return what ? 0 : (unsigned long)q->bits.c;
  case 20: return what ? 0 : (unsigned long)q->bits.d;
  case 21: return what ? TYPE(q->bits.tail) + 100 * sizeof(q->bits.tail) : (unsigned long)q->bits.tail;
  case 22: return what ? TYPE(q->end) + 100 * sizeof(q->end) : (unsigned long)q->end;
  default: return k == -1 ? sizeof *q : (unsigned long)__alignof__(*q);
  }
}
static unsigned long rd_10(const void *p, int k, int what)
{
  struct anon *q = (struct anon *)p;
  (void)q;
  switch (k) {
  case 0: return what ? TYPE(q->x) + 100 * sizeof(q->x) : (unsigned long)q->x;
  case 1: return what ? TYPE(q->q1) + 100 * sizeof(q->q1) : (unsigned long)q->q1;
  case 2: return what ? TYPE(q->q2) + 100 * sizeof(q->q2) : (unsigned long)q->q2;
  case 3: return what ? TYPE(q->q3[0]) + 100 * sizeof(q->q3[0]) : (unsigned long)q->q3[0];
  case 4: return what ? TYPE(q->q3[1]) + 100 * sizeof(q->q3[1]) : (unsigned long)q->q3[1];
  case 5: return what ? TYPE(q->in.q) + 100 * sizeof(q->in.q) : (unsigned long)q->in.q;
  case 6: return what ? TYPE(q->in.r[0]) + 100 * sizeof(q->in.r[0]) : (unsigned long)q->in.r[0];
  case 7: return what ? TYPE(q->in.r[1]) + 100 * sizeof(q->in.r[1]) : (unsigned long)q->in.r[1];
  case 8: return what ? TYPE(q->al) + 100 * sizeof(q->al) : (unsigned long)q->al;
  case 9: return what ? TYPE(q->ach) + 100 * sizeof(q->ach) : (unsigned long)q->ach;
  default: return k == -1 ? sizeof *q : (unsigned long)__alignof__(*q);
  }
}
static unsigned long rd_11(const void *p, int k, int what)
{
  struct sarr *q = (struct sarr *)p;
  (void)q;
  switch (k) {
  case 0: return what ? TYPE(q->a[0].a) + 100 * sizeof(q->a[0].a) : (unsigned long)q->a[0].a;
  case 1: return what ? TYPE(q->a[0].b) + 100 * sizeof(q->a[0].b) : (unsigned long)q->a[0].b;
  case 2: return what ? TYPE(q->a[1].a) + 100 * sizeof(q->a[1].a) : (unsigned long)q->a[1].a;
  case 3: return what ? TYPE(q->a[1].b) + 100 * sizeof(q->a[1].b) : (unsigned long)q->a[1].b;
  case 4: return what ? TYPE(q->a[2].a) + 100 * sizeof(q->a[2].a) : (unsigned long)q->a[2].a;
  case 5: return what ? TYPE(q->a[2].b) + 100 * sizeof(q->a[2].b) : (unsigned long)q->a[2].b;
  case 6: return what ? 0 : (unsigned long)q->b.a;
  case 7: return what ? 0 : (unsigned long)q->b.b;
  case 8: return what ? 0 : (unsigned long)q->b.c;
  case 9: return what ? 0 : (unsigned long)q->b.d;
  case 10: return what ? TYPE(q->b.tail) + 100 * sizeof(q->b.tail) : (unsigned long)q->b.tail;
  case 11: return what ? TYPE(q->k) + 100 * sizeof(q->k) : (unsigned long)q->k;
  default: return k == -1 ? sizeof *q : (unsigned long)__alignof__(*q);
  }
}
static unsigned long rd_12(const void *p, int k, int what)
{
  union uni *q = (union uni *)p;
  (void)q;
  switch (k) {
  case 0: return what ? TYPE(q->l) + 100 * sizeof(q->l) : (unsigned long)q->l;
  case 1: return what ? TYPE(q->s) + 100 * sizeof(q->s) : (unsigned long)q->s;
  case 2: return what ? TYPE(q->c[0]) + 100 * sizeof(q->c[0]) : (unsigned long)q->c[0];
  case 3: return what ? TYPE(q->c[1]) + 100 * sizeof(q->c[1]) : (unsigned long)q->c[1];
  case 4: return what ? TYPE(q->c[2]) + 100 * sizeof(q->c[2]) : (unsigned long)q->c[2];
  default: return k == -1 ? sizeof *q : (unsigned long)__alignof__(*q);
  }
}
static unsigned long rd_13(const void *p, int k, int what)
{
  struct unis *q = (struct unis *)p;
  (void)q;
  switch (k) {
  case 0: return what ? TYPE(q->tag) + 100 * sizeof(q->tag) : (unsigned long)q->tag;
  case 1: return what ? TYPE(q->u.l) + 100 * sizeof(q->u.l) : (unsigned long)q->u.l;
  case 2: return what ? TYPE(q->u.s) + 100 * sizeof(q->u.s) : (unsigned long)q->u.s;
  case 3: return what ? TYPE(q->u.c[0]) + 100 * sizeof(q->u.c[0]) : (unsigned long)q->u.c[0];
  case 4: return what ? TYPE(q->u.c[1]) + 100 * sizeof(q->u.c[1]) : (unsigned long)q->u.c[1];
  case 5: return what ? TYPE(q->u.c[2]) + 100 * sizeof(q->u.c[2]) : (unsigned long)q->u.c[2];
  case 6: return what ? TYPE(q->v.i) + 100 * sizeof(q->v.i) : (unsigned long)q->v.i;
  case 7: return what ? TYPE(q->v.p.a) + 100 * sizeof(q->v.p.a) : (unsigned long)q->v.p.a;
  case 8: return what ? TYPE(q->v.p.b) + 100 * sizeof(q->v.p.b) : (unsigned long)q->v.p.b;
  case 9: return what ? TYPE(q->z) + 100 * sizeof(q->z) : (unsigned long)q->z;
  default: return k == -1 ? sizeof *q : (unsigned long)__alignof__(*q);
  }
}
static unsigned long rd_14(const void *p, int k, int what)
{
  struct flex *q = (struct flex *)p;
  (void)q;
  switch (k) {
  case 0: return what ? TYPE(q->len) + 100 * sizeof(q->len) : (unsigned long)q->len;
  case 1: return what ? TYPE(q->b) + 100 * sizeof(q->b) : (unsigned long)q->b;
  default: return k == -1 ? sizeof *q : (unsigned long)__alignof__(*q);
  }
}
static unsigned long rd_15(const void *p, int k, int what)
{
  byref_t *q = (byref_t *)p;
  (void)q;
  switch (k) {
  case 0: return what ? TYPE(q->v) + 100 * sizeof(q->v) : (unsigned long)q->v;
  case 1: return what ? TYPE(q->w[0]) + 100 * sizeof(q->w[0]) : (unsigned long)q->w[0];
  case 2: return what ? TYPE(q->w[1]) + 100 * sizeof(q->w[1]) : (unsigned long)q->w[1];
  default: return k == -1 ? sizeof *q : (unsigned long)__alignof__(*q);
  }
}
static long enumerator(int k, int what)
{
  switch (k) {
  case 0: return what == 0 ? (long)RED : what == 1 ? (long)sizeof(RED) : what == 2 ? (long)sizeof(enum color) : ((enum color)-1 < 0) + 2 * VTYPE(RED);
  case 1: return what == 0 ? (long)GREEN : what == 1 ? (long)sizeof(GREEN) : what == 2 ? (long)sizeof(enum color) : ((enum color)-1 < 0) + 2 * VTYPE(GREEN);
  case 2: return what == 0 ? (long)BLUE : what == 1 ? (long)sizeof(BLUE) : what == 2 ? (long)sizeof(enum color) : ((enum color)-1 < 0) + 2 * VTYPE(BLUE);
  case 3: return what == 0 ? (long)AA : what == 1 ? (long)sizeof(AA) : what == 2 ? (long)sizeof(ab_t) : ((ab_t)-1 < 0) + 2 * VTYPE(AA);
  case 4: return what == 0 ? (long)BB : what == 1 ? (long)sizeof(BB) : what == 2 ? (long)sizeof(ab_t) : ((ab_t)-1 < 0) + 2 * VTYPE(BB);
  default: return 0;
  }
}
const struct layout LAYOUT = { { rd_0, rd_1, rd_2, rd_3, rd_4, rd_5, rd_6, rd_7, rd_8, rd_9, rd_10, rd_11, rd_12, rd_13, rd_14, rd_15 }, enumerator };
