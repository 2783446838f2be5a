#include "vf.h"
#define ST(n) struct s##n { unsigned char b[n]; }; static struct s##n mk##n(int k) { struct s##n s; for (int i = 0; i < n; i++) s.b[i] = k + i; return s; } \
 static unsigned long sm##n(struct s##n s, int k, struct s##n t) { unsigned long r = k; for (int i = 0; i < n; i++) r = r * 31 + s.b[i] * 3 + t.b[i]; s.b[0] = 99; return r; } \
 static void ts##n(void) { struct s##n a = mk##n(n), b, *p = &b, c[3] = { mk##n(1), mk##n(2), mk##n(3) }; b = a; *p = c[1]; c[2] = *p; c[0] = c[2]; P(sm##n(a, 1, b)); P(sm##n(mk##n(5), 2, c[0])); P(mk##n(7).b[n - 1]); P((rnd() & 1 ? a : b).b[0]); P(((struct s##n){ { 1 } }).b[0]); a = (b = c[2], c[1]); P(sm##n(a, 3, *p)); P(({ struct s##n z = a; z.b[0]++; z; }).b[0]); P(a.b[0]); }
#define L(F) F(1) F(2) F(3) F(4) F(5) F(6) F(7) F(8) F(9) F(11) F(12) F(13) F(15) F(16) F(17) F(20) F(23) F(24) F(25) F(31) F(32) F(33) F(40) F(63) F(64) F(65) F(100) F(128) F(129) F(200) F(256) F(257) F(1000)
#undef __LINE_KEEP
ST(1) ST(2) ST(3) ST(4) ST(5) ST(6) ST(7) ST(8) ST(9) ST(11) ST(12) ST(13) ST(15) ST(16) ST(17) ST(20) ST(23) ST(24) ST(25) ST(31) ST(32) ST(33) ST(40) ST(63) ST(64) ST(65) ST(100) ST(128) ST(129) ST(200) ST(256) ST(257) ST(1000)
struct node { struct node *next; int v; }; struct tree { struct tree *l, *r; long k; };
static struct tree *ins(struct tree *t, long k) { if (!t) { t = malloc(sizeof *t); *t = (struct tree){ .k = k }; } else if (k < t->k) t->l = ins(t->l, k); else if (k > t->k) t->r = ins(t->r, k); return t; }
static int walk(struct tree *t, long *out, int n) { if (!t) return n; n = walk(t->l, out, n); out[n++] = t->k; n = walk(t->r, out, n); free(t); return n; }
struct in { short a; union { int i; char c[4]; struct { unsigned lo : 4, hi : 28; }; }; struct { long x, y; } pt; }; struct out { char t; struct in v[2]; struct in *p; int f[]; };
static struct in gin = { 1, { 0x01020304 }, { 5, 6 } }; static struct out gout = { 'x', { { 2, .c = { 1, 2, 3, 4 }, .pt.y = 9 }, { .pt = { 7 } } }, &gin, { 4, 5, 6 } };
union u { int i; float f; unsigned char b[8]; long l; struct { short x, y; } s; }; enum e { A = -5, B, C = 1 << 20, DD = 'z', EE };
typedef struct { int (*fn)(int); struct { int a, b; } in; } ops; static int dbl(int x) { return x * 2; } static int neg(int x) { return -x; }
static struct { int a; struct { int b; } c[2]; } anon = { 1, { { 2 }, { 3 } } }; static struct node n3 = { 0, 3 }, n2 = { &n3, 2 }, n1 = { &n2, 1 };
struct big { long a[20]; }; static struct big mkbig(int s) { struct big b; for (int i = 0; i < 20; i++) b.a[i] = s * i; return b; } static struct big chain(struct big x, int n) { x.a[n]++; return n ? chain(x, n - 1) : x; }
static long args(int a, struct s3 b, long c, struct s24 d, char e, struct s16 f, short g, struct s9 h, int i, int j, struct s5 k) { return a + b.b[2] * 2 + c * 3 + d.b[23] * 5 + e * 7 + f.b[15] * 11 + g * 13 + h.b[8] * 17 + i * 19 + j * 23 + k.b[4] * 29; }
int main(void)
{
  ts1(); ts2(); ts3(); ts4(); ts5(); ts6(); ts7(); ts8(); ts9(); ts11(); ts12(); ts13(); ts15(); ts16(); ts17(); ts20(); ts23(); ts24(); ts25(); ts31(); ts32(); ts33(); ts40(); ts63(); ts64(); ts65(); ts100(); ts128(); ts129(); ts200(); ts256(); ts257(); ts1000();
  struct tree *t = 0; long o[300]; for (int i = 0; i < 300; i++) t = ins(t, rnd() % 1000); int n = walk(t, o, 0); P(n); D(for (int i = 0; i < n; i++) H(o[i]));
  P(gin.i); P(gin.lo); P(gin.hi); P(gin.c[2]); P(gin.pt.y); P(gout.v[0].c[3]); P(gout.v[0].i); P(gout.v[1].pt.x); P(gout.p->pt.x); P(gout.f[2]); P(offsetof(struct out, f)); P(offsetof(struct in, pt.y)); P(sizeof(struct out));
  gout.v[1] = *gout.p; gout.v[1].lo = 7; P(gout.v[1].i); P(gin.i); gout.p = &gout.v[1]; gout.p->pt.x += 3; P(gout.v[1].pt.x); struct in *q = gout.v; q++; P(q->pt.x); P(q - gout.v); P((q[-1]).pt.y); P((*q).a); P((&*q)->a);
  union u u; u.l = 0; u.f = 1.5f; P(u.i); u.s.y = 0x1234; P(u.b[2]); P(u.b[3]); u.b[7] = 0x80; P(u.l < 0); union u v = { .s = { 1, 2 } }; P(v.i); v = u; P(v.b[7]); P(sizeof u);
  P(A); P(B); P(C); P(DD); P(EE); enum e ee = A; P(ee < 0); P(ee == -5); ee++; P(ee == B); P(sizeof ee); ops op[2] = { { dbl, { 1, 2 } }, { .in.b = 4, .fn = neg } }; P(op[0].fn(4)); P((op + 1)->fn(op[1].in.b)); P((*op[0].fn)(op[0].in.a)); op[0] = op[1]; P(op->fn(9));
  P(anon.c[1].b); D(for (struct node *x = &n1; x; x = x->next) H(x->v)); P(n1.next->next->v); struct big b = chain(mkbig(3), 19); D(for (int i = 0; i < 20; i++) H(b.a[i])); P(chain(b, 5).a[5]); P(mkbig(2).a[19]);
  P(args(1, mk3(2), 3, mk24(4), 5, mk16(6), 7, mk9(8), 9, 10, mk5(11))); struct big arr[3] = { mkbig(1) }; arr[2] = arr[1] = arr[0]; P(arr[2].a[7]); arr[0] = *(arr + 2); struct big *pb = arr; *pb++ = mkbig(9); P(pb - arr); P(arr->a[3]);
  struct s7 s7 = mk7(1); struct { char x; struct s7 y; char z; } w = { 1, s7, 3 }; P(w.y.b[6]); P(w.z); w.y = mk7(9); P(w.x); P(w.z); P(w.y.b[6]); memcpy(&s7, &w.y, sizeof s7); P(s7.b[0]); P(((struct s7 *)&w.y)->b[1]); const struct s7 *cp = &s7; P(cp->b[3]); volatile struct s7 vs; vs.b[1] = 3; P(vs.b[1]);
  return 0;
}
