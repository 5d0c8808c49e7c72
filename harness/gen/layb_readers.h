// Written by tools/mklay.py.  Readers of the types of shapes/layb.h.
static unsigned long rd_0(const void *p, int k, int what)
{
  struct eb *q = (struct eb *)p;
  (void)q;
  switch (k) {
  case 0: return what ? 0 : (unsigned long)q->a;
  case 1: return what ? 0 : (unsigned long)q->b;
  case 2: return what ? 0 : (unsigned long)q->c;
  case 3: return what ? 0 : (unsigned long)q->d;
  case 4: return what ? TYPE(q->e) + 100 * sizeof(q->e) : (unsigned long)q->e;
  case 5: return what ? 0 : (unsigned long)q->f;
  case 6: return what ? 0 : (unsigned long)q->g;
  case 7: return what ? 0 : (unsigned long)q->h;
  default: return k == -1 ? sizeof *q : (unsigned long)__alignof__(*q);
  }
}
static unsigned long rd_1(const void *p, int k, int what)
{
  struct at *q = (struct at *)p;
  (void)q;
  switch (k) {
  case 0: return what ? TYPE(q->x) + 100 * sizeof(q->x) : (unsigned long)q->x;
  case 1: return what ? TYPE(q->a[0]) + 100 * sizeof(q->a[0]) : (unsigned long)q->a[0];
  case 2: return what ? TYPE(q->a[1]) + 100 * sizeof(q->a[1]) : (unsigned long)q->a[1];
  case 3: return what ? TYPE(q->a[2]) + 100 * sizeof(q->a[2]) : (unsigned long)q->a[2];
  case 4: return what ? TYPE(q->b[0]) + 100 * sizeof(q->b[0]) : (unsigned long)q->b[0];
  case 5: return what ? TYPE(q->b[1]) + 100 * sizeof(q->b[1]) : (unsigned long)q->b[1];
  case 6: return what ? TYPE(q->b[2]) + 100 * sizeof(q->b[2]) : (unsigned long)q->b[2];
  case 7: return what ? TYPE(q->p[0].a) + 100 * sizeof(q->p[0].a) : (unsigned long)q->p[0].a;
  case 8: return what ? TYPE(q->p[0].b) + 100 * sizeof(q->p[0].b) : (unsigned long)q->p[0].b;
  case 9: return what ? TYPE(q->p[1].a) + 100 * sizeof(q->p[1].a) : (unsigned long)q->p[1].a;
  case 10: return what ? TYPE(q->p[1].b) + 100 * sizeof(q->p[1].b) : (unsigned long)q->p[1].b;
  case 11: return what ? TYPE(q->y) + 100 * sizeof(q->y) : (unsigned long)q->y;
  case 12: return what ? TYPE(q->q[0].a) + 100 * sizeof(q->q[0].a) : (unsigned long)q->q[0].a;
  case 13: return what ? TYPE(q->q[0].b) + 100 * sizeof(q->q[0].b) : (unsigned long)q->q[0].b;
  case 14: return what ? TYPE(q->q[1].a) + 100 * sizeof(q->q[1].a) : (unsigned long)q->q[1].a;
  case 15: return what ? TYPE(q->q[1].b) + 100 * sizeof(q->q[1].b) : (unsigned long)q->q[1].b;
  case 16: return what ? TYPE(q->z) + 100 * sizeof(q->z) : (unsigned long)q->z;
  default: return k == -1 ? sizeof *q : (unsigned long)__alignof__(*q);
  }
}
static unsigned long rd_2(const void *p, int k, int what)
{
  struct cv *q = (struct cv *)p;
  (void)q;
  switch (k) {
  case 0: return what ? TYPE(q->a) + 100 * sizeof(q->a) : (unsigned long)q->a;
  case 1: return what ? TYPE(q->b) + 100 * sizeof(q->b) : (unsigned long)q->b;
  case 2: return what ? TYPE(q->c) + 100 * sizeof(q->c) : (unsigned long)q->c;
  case 3: return what ? TYPE(q->d) + 100 * sizeof(q->d) : (unsigned long)q->d;
  case 4: return what ? TYPE(q->e) + 100 * sizeof(q->e) : (unsigned long)q->e;
  case 5: return what ? TYPE(q->f) + 100 * sizeof(q->f) : (unsigned long)q->f;
  case 6: return what ? TYPE(q->g) + 100 * sizeof(q->g) : (unsigned long)q->g;
  case 7: return what ? TYPE(q->h) + 100 * sizeof(q->h) : (unsigned long)q->h;
  case 8: return what ? TYPE(q->i) + 100 * sizeof(q->i) : (unsigned long)q->i;
  case 9: return what ? TYPE(q->j) + 100 * sizeof(q->j) : (unsigned long)q->j;
  default: return k == -1 ? sizeof *q : (unsigned long)__alignof__(*q);
  }
}
static unsigned long rd_3(const void *p, int k, int what)
{
  struct ine *q = (struct ine *)p;
  (void)q;
  switch (k) {
  case 0: return what ? TYPE(q->k) + 100 * sizeof(q->k) : (unsigned long)q->k;
  case 1: return what ? TYPE(q->j) + 100 * sizeof(q->j) : (unsigned long)q->j;
  case 2: return what ? TYPE(q->l) + 100 * sizeof(q->l) : (unsigned long)q->l;
  case 3: return what ? TYPE(q->z) + 100 * sizeof(q->z) : (unsigned long)q->z;
  default: return k == -1 ? sizeof *q : (unsigned long)__alignof__(*q);
  }
}
static unsigned long rd_4(const void *p, int k, int what)
{
  struct cbs *q = (struct cbs *)p;
  (void)q;
  switch (k) {
  case 0: return what ? TYPE(q->a) + 100 * sizeof(q->a) : (unsigned long)q->a;
  case 1: return what ? TYPE(q->b) + 100 * sizeof(q->b) : (unsigned long)q->b;
  case 2: return what ? TYPE(q->c) + 100 * sizeof(q->c) : (unsigned long)q->c;
  case 3: return what ? TYPE(q->d) + 100 * sizeof(q->d) : (unsigned long)q->d;
  case 4: return what ? TYPE(q->e) + 100 * sizeof(q->e) : (unsigned long)q->e;
  case 5: return what ? TYPE(q->f[0]) + 100 * sizeof(q->f[0]) : (unsigned long)q->f[0];
  case 6: return what ? TYPE(q->f[1]) + 100 * sizeof(q->f[1]) : (unsigned long)q->f[1];
  case 7: return what ? TYPE(q->g) + 100 * sizeof(q->g) : (unsigned long)q->g;
  default: return k == -1 ? sizeof *q : (unsigned long)__alignof__(*q);
  }
}
static unsigned long rd_5(const void *p, int k, int what)
{
  struct tdp *q = (struct tdp *)p;
  (void)q;
  switch (k) {
  case 0: return what ? TYPE(q->e) + 100 * sizeof(q->e) : (unsigned long)q->e;
  case 1: return what ? TYPE(q->t) + 100 * sizeof(q->t) : (unsigned long)q->t;
  case 2: return what ? TYPE(q->p.a) + 100 * sizeof(q->p.a) : (unsigned long)q->p.a;
  case 3: return what ? TYPE(q->p.b) + 100 * sizeof(q->p.b) : (unsigned long)q->p.b;
  case 4: return what ? TYPE(q->o) + 100 * sizeof(q->o) : (unsigned long)q->o;
  case 5: return what ? TYPE(q->q) + 100 * sizeof(q->q) : (unsigned long)q->q;
  case 6: return what ? TYPE(q->ld) : bits(&q->ld, 10);
  case 7: return what ? TYPE(q->i) : bits(&q->i, 16);
  case 8: return what ? TYPE(q->u) : bits(&q->u, 16);
  case 9: return what ? TYPE(q->b) : bits(&q->b, 1);
  case 10: return what ? TYPE(q->ch) + 100 * sizeof(q->ch) : (unsigned long)q->ch;
  case 11: return what ? TYPE(q->v) + 100 * sizeof(q->v) : (unsigned long)q->v;
  case 12: return what ? TYPE(q->s) + 100 * sizeof(q->s) : (unsigned long)q->s;
  default: return k == -1 ? sizeof *q : (unsigned long)__alignof__(*q);
  }
}
static unsigned long rd_6(const void *p, int k, int what)
{
  struct noname *q = (struct noname *)p;
  (void)q;
  switch (k) {
  case 0: return what ? 0 : (unsigned long)q->a;
  case 1: return what ? TYPE(q->b) + 100 * sizeof(q->b) : (unsigned long)q->b;
  case 2: return what ? 0 : (unsigned long)q->c;
  case 3: return what ? 0 : (unsigned long)q->d;
  case 4: return what ? 0 : (unsigned long)q->e;
  default: return k == -1 ? sizeof *q : (unsigned long)__alignof__(*q);
  }
}
static unsigned long rd_7(const void *p, int k, int what)
{
  struct lflex *q = (struct lflex *)p;
  (void)q;
  switch (k) {
  case 0: return what ? TYPE(q->n) + 100 * sizeof(q->n) : (unsigned long)q->n;
  default: return k == -1 ? sizeof *q : (unsigned long)__alignof__(*q);
  }
}
static unsigned long rd_8(const void *p, int k, int what)
{
  struct lflex2 *q = (struct lflex2 *)p;
  (void)q;
  switch (k) {
  case 0: return what ? TYPE(q->n) + 100 * sizeof(q->n) : (unsigned long)q->n;
  default: return k == -1 ? sizeof *q : (unsigned long)__alignof__(*q);
  }
}
static unsigned long rd_9(const void *p, int k, int what)
{
  struct zero *q = (struct zero *)p;
  (void)q;
  switch (k) {
  case 0: return what ? TYPE(q->n) + 100 * sizeof(q->n) : (unsigned long)q->n;
  default: return k == -1 ? sizeof *q : (unsigned long)__alignof__(*q);
  }
}
static unsigned long rd_10(const void *p, int k, int what)
{
  deepu_t *q = (deepu_t *)p;
  (void)q;
  switch (k) {
  case 0: return what ? TYPE(q->w.q1) + 100 * sizeof(q->w.q1) : (unsigned long)q->w.q1;
  case 1: return what ? TYPE(q->w.q2[0]) + 100 * sizeof(q->w.q2[0]) : (unsigned long)q->w.q2[0];
  case 2: return what ? TYPE(q->w.q2[1]) + 100 * sizeof(q->w.q2[1]) : (unsigned long)q->w.q2[1];
  case 3: return what ? TYPE(q->w.q2[2]) + 100 * sizeof(q->w.q2[2]) : (unsigned long)q->w.q2[2];
  case 4: return what ? TYPE(q->w.q2[3]) + 100 * sizeof(q->w.q2[3]) : (unsigned long)q->w.q2[3];
  case 5: return what ? TYPE(q->w.q2[4]) + 100 * sizeof(q->w.q2[4]) : (unsigned long)q->w.q2[4];
  case 6: return what ? TYPE(q->w.q2[5]) + 100 * sizeof(q->w.q2[5]) : (unsigned long)q->w.q2[5];
  case 7: return what ? TYPE(q->w.q2[6]) + 100 * sizeof(q->w.q2[6]) : (unsigned long)q->w.q2[6];
  case 8: return what ? TYPE(q->w.q2[7]) + 100 * sizeof(q->w.q2[7]) : (unsigned long)q->w.q2[7];
  case 9: return what ? TYPE(q->w.bits[0].c) + 100 * sizeof(q->w.bits[0].c) : (unsigned long)q->w.bits[0].c;
  case 10: return what ? 0 : (unsigned long)q->w.bits[0].bf;
  case 11: return what ? TYPE(q->w.bits[1].c) + 100 * sizeof(q->w.bits[1].c) : (unsigned long)q->w.bits[1].c;
  case 12: return what ? 0 : (unsigned long)q->w.bits[1].bf;
  case 13: return what ? TYPE(q->d) : bits(&q->d, 8);
  case 14: return what ? TYPE(q->at.x) + 100 * sizeof(q->at.x) : (unsigned long)q->at.x;
  case 15: return what ? TYPE(q->at.a[0]) + 100 * sizeof(q->at.a[0]) : (unsigned long)q->at.a[0];
  case 16: return what ? TYPE(q->at.a[1]) + 100 * sizeof(q->at.a[1]) : (unsigned long)q->at.a[1];
  case 17: return what ? TYPE(q->at.a[2]) + 100 * sizeof(q->at.a[2]) : (unsigned long)q->at.a[2];
  case 18: return what ? TYPE(q->at.b[0]) + 100 * sizeof(q->at.b[0]) : (unsigned long)q->at.b[0];
  case 19: return what ? TYPE(q->at.b[1]) + 100 * sizeof(q->at.b[1]) : (unsigned long)q->at.b[1];
  case 20: return what ? TYPE(q->at.b[2]) + 100 * sizeof(q->at.b[2]) : (unsigned long)q->at.b[2];
  case 21: return what ? TYPE(q->at.p[0].a) + 100 * sizeof(q->at.p[0].a) : (unsigned long)q->at.p[0].a;
  case 22: return what ? TYPE(q->at.p[0].b) + 100 * sizeof(q->at.p[0].b) : (unsigned long)q->at.p[0].b;
  case 23: return what ? TYPE(q->at.p[1].a) + 100 * sizeof(q->at.p[1].a) : (unsigned long)q->at.p[1].a;
  case 24: return what ? TYPE(q->at.p[1].b) + 100 * sizeof(q->at.p[1].b) : (unsigned long)q->at.p[1].b;
  case 25: return what ? TYPE(q->at.y) + 100 * sizeof(q->at.y) : (unsigned long)q->at.y;
  case 26: return what ? TYPE(q->at.q[0].a) + 100 * sizeof(q->at.q[0].a) : (unsigned long)q->at.q[0].a;
  case 27: return what ? TYPE(q->at.q[0].b) + 100 * sizeof(q->at.q[0].b) : (unsigned long)q->at.q[0].b;
  case 28: return what ? TYPE(q->at.q[1].a) + 100 * sizeof(q->at.q[1].a) : (unsigned long)q->at.q[1].a;
  case 29: return what ? TYPE(q->at.q[1].b) + 100 * sizeof(q->at.q[1].b) : (unsigned long)q->at.q[1].b;
  case 30: return what ? TYPE(q->at.z) + 100 * sizeof(q->at.z) : (unsigned long)q->at.z;
  default: return k == -1 ? sizeof *q : (unsigned long)__alignof__(*q);
  }
}
static long enumerator(int k, int what)
{
  switch (k) {
  case 0: return what == 0 ? (long)RED : what == 1 ? (long)sizeof(RED) : what == 2 ? (long)sizeof(enum color) : ((enum color)-1 < 0) + 2 * VTYPE(RED);
  case 1: return what == 0 ? (long)GREEN : what == 1 ? (long)sizeof(GREEN) : what == 2 ? (long)sizeof(enum color) : ((enum color)-1 < 0) + 2 * VTYPE(GREEN);
  case 2: return what == 0 ? (long)BLUE : what == 1 ? (long)sizeof(BLUE) : what == 2 ? (long)sizeof(enum color) : ((enum color)-1 < 0) + 2 * VTYPE(BLUE);
  case 3: return what == 0 ? (long)NA : what == 1 ? (long)sizeof(NA) : what == 2 ? (long)sizeof(enum neg) : ((enum neg)-1 < 0) + 2 * VTYPE(NA);
  case 4: return what == 0 ? (long)NB : what == 1 ? (long)sizeof(NB) : what == 2 ? (long)sizeof(enum neg) : ((enum neg)-1 < 0) + 2 * VTYPE(NB);
  case 5: return what == 0 ? (long)NC : what == 1 ? (long)sizeof(NC) : what == 2 ? (long)sizeof(enum neg) : ((enum neg)-1 < 0) + 2 * VTYPE(NC);
  case 6: return what == 0 ? (long)BA : what == 1 ? (long)sizeof(BA) : what == 2 ? (long)sizeof(enum big) : ((enum big)-1 < 0) + 2 * VTYPE(BA);
  case 7: return what == 0 ? (long)BB : what == 1 ? (long)sizeof(BB) : what == 2 ? (long)sizeof(enum big) : ((enum big)-1 < 0) + 2 * VTYPE(BB);
  case 8: return what == 0 ? (long)CA : what == 1 ? (long)sizeof(CA) : what == 2 ? (long)sizeof(enum bigneg) : ((enum bigneg)-1 < 0) + 2 * VTYPE(CA);
  case 9: return what == 0 ? (long)CB : what == 1 ? (long)sizeof(CB) : what == 2 ? (long)sizeof(enum bigneg) : ((enum bigneg)-1 < 0) + 2 * VTYPE(CB);
  case 10: return what == 0 ? (long)CC : what == 1 ? (long)sizeof(CC) : what == 2 ? (long)sizeof(enum bigneg) : ((enum bigneg)-1 < 0) + 2 * VTYPE(CC);
  case 11: return what == 0 ? (long)UA : what == 1 ? (long)sizeof(UA) : what == 2 ? (long)sizeof(enum uns) : ((enum uns)-1 < 0) + 2 * VTYPE(UA);
  case 12: return what == 0 ? (long)UB : what == 1 ? (long)sizeof(UB) : what == 2 ? (long)sizeof(enum uns) : ((enum uns)-1 < 0) + 2 * VTYPE(UB);
  case 13: return what == 0 ? (long)CHA : what == 1 ? (long)sizeof(CHA) : what == 2 ? (long)sizeof(enum ch) : ((enum ch)-1 < 0) + 2 * VTYPE(CHA);
  case 14: return what == 0 ? (long)CHB : what == 1 ? (long)sizeof(CHB) : what == 2 ? (long)sizeof(enum ch) : ((enum ch)-1 < 0) + 2 * VTYPE(CHB);
  case 15: return what == 0 ? (long)CHC : what == 1 ? (long)sizeof(CHC) : what == 2 ? (long)sizeof(enum ch) : ((enum ch)-1 < 0) + 2 * VTYPE(CHC);
  case 16: return what == 0 ? (long)CHD : what == 1 ? (long)sizeof(CHD) : what == 2 ? (long)sizeof(enum ch) : ((enum ch)-1 < 0) + 2 * VTYPE(CHD);
  case 17: return what == 0 ? (long)CHE : what == 1 ? (long)sizeof(CHE) : what == 2 ? (long)sizeof(enum ch) : ((enum ch)-1 < 0) + 2 * VTYPE(CHE);
  case 18: return what == 0 ? (long)T0 : what == 1 ? (long)sizeof(T0) : what == 2 ? (long)sizeof(en_t) : ((en_t)-1 < 0) + 2 * VTYPE(T0);
  case 19: return what == 0 ? (long)T1 : what == 1 ? (long)sizeof(T1) : what == 2 ? (long)sizeof(en_t) : ((en_t)-1 < 0) + 2 * VTYPE(T1);
  case 20: return what == 0 ? (long)T2 : what == 1 ? (long)sizeof(T2) : what == 2 ? (long)sizeof(en_t) : ((en_t)-1 < 0) + 2 * VTYPE(T2);
  case 21: return what == 0 ? (long)G0 : what == 1 ? (long)sizeof(G0) : what == 2 ? (long)sizeof(tagged_t) : ((tagged_t)-1 < 0) + 2 * VTYPE(G0);
  case 22: return what == 0 ? (long)G1 : what == 1 ? (long)sizeof(G1) : what == 2 ? (long)sizeof(tagged_t) : ((tagged_t)-1 < 0) + 2 * VTYPE(G1);
  case 23: return what == 0 ? (long)JA : what == 1 ? (long)sizeof(JA) : what == 2 ? (long)sizeof(enum inner) : ((enum inner)-1 < 0) + 2 * VTYPE(JA);
  case 24: return what == 0 ? (long)JB : what == 1 ? (long)sizeof(JB) : what == 2 ? (long)sizeof(enum inner) : ((enum inner)-1 < 0) + 2 * VTYPE(JB);
  case 25: return what == 0 ? (long)IA : what == 1 ? (long)sizeof(IA) : what == 2 ? (long)sizeof(int) : ((int)-1 < 0) + 2 * VTYPE(IA);
  case 26: return what == 0 ? (long)IB : what == 1 ? (long)sizeof(IB) : what == 2 ? (long)sizeof(int) : ((int)-1 < 0) + 2 * VTYPE(IB);
  default: return 0;
  }
}
const struct layout LAYOUT = { { rd_0, rd_1, rd_2, rd_3, rd_4, rd_5, rd_6, rd_7, rd_8, rd_9, rd_10 }, enumerator };
