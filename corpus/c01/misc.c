#include "vf.h"
#include <stdbool.h>
#include <stdalign.h>
#include <limits.h>
int tent; int tent; int tent = 5; extern int ext; int ext = 7; static int sarr[]; static int sarr[3] = { 1, 2, 3 }; typedef int arr_t[4]; typedef struct fwd fwd; struct fwd { int x; fwd *n; };
int g1 = 3 + 4 * 2, g2 = (1 << 5) | 3, g3 = -7 / 2, g4 = -7 % 3, g5 = 7 > 3 ? 10 : 20, g6 = sizeof(int[7]), g7 = !5 || 2 && 3, g8 = ~0u >> 4, g9 = (char)300, g10 = (unsigned char)-1, *gp = &g1, *gq = sarr + 2, **gpp = &gp; long gd = (char *)&((fwd *)0)->n - (char *)0; char *gs = "str" + 1; int (*gf)(const char *, ...) = printf; int *ga[] = { &g1, &sarr[1], 0 };
static const unsigned char ctab[256] = { ['a' ... 'z'] = 1, ['A' ... 'Z'] = 2, ['0' ... '9'] = 4, ['_'] = 1 | 8, [255] = 0x80 }; static int mat[3][3] = { [1] = { 1, 2, 3 }, [0][2] = 9, [2][0] = 7, 8 }; static struct { int a[3]; struct { char c; int d; } e[2]; } ds = { .a[1] = 5, .e[1].d = 6, .e[0] = { 'q' }, .a = { [2] = 8 } };
#define G(x) _Generic((x), char: 1, signed char: 2, unsigned char: 3, short: 4, unsigned short: 5, int: 6, unsigned: 7, long: 8, unsigned long: 9, long long: 10, unsigned long long: 11, float: 12, double: 13, long double: 14, char *: 15, const char *: 16, int *: 17, void *: 18, default: 19)
static int sidefx; static int se(void) { return ++sidefx; }
int main(void)
{
  P(tent + ext); P(sarr[2]); arr_t at = { 1, 2 }; P(sizeof at + at[3]); fwd f1 = { 1, 0 }, f2 = { 2, &f1 }; P(f2.n->x); P(g1); P(g2); P(g3); P(g4); P(g5); P(g6); P(g7); P(g8); P(g9); P(g10); P(*gp); P(*gq); P(**gpp); P(gd); S(gs); P(gf == printf); P(*ga[1]); P(ga[2] == 0);
  for (int i = 0; i < 256; i++) H(ctab[i]); P(hh_); D(for (int i = 0; i < 9; i++) H(((int *)mat)[i])); P(ds.a[1]); P(ds.a[2]); P(ds.e[0].c); P(ds.e[1].d);
  P(G('a')); P(G((char)1)); P(G((short)1 + (short)1)); P(G(1u + 1)); P(G(1l * 1)); P(G(1ul - 1ll)); P(G(1.f)); P(G(1.f * 2)); P(G(1.)); P(G(1.l + 1)); P(G("s")); P(G((const char *)0)); P(G(&g1)); P(G((void *)0)); P(G(sizeof 1)); P(G(gp - gq)); P(G(1 ? 1 : 1u)); P(G(1 ? 1 : 1.f)); P(G((signed char)1 << 1l)); P(G(1ull >> 1)); P(G(-(unsigned char)1)); P(G(!1.)); P(G(gp ? gp : (void *)0)); P(G(1 < 2)); P(G(0x7fffffff)); P(G(0x80000000)); P(G(2147483648)); P(G(0xffffffffffffffff)); P(G(1 ? (char)1 : (char)2)); P(G((_Bool)1 + (_Bool)1)); P(G(~(unsigned short)1)); P(G(017777777777)); P(G(037777777777)); P(G(0b1)); P(G(L'a'));
  typeof(g1) t1 = 3; typeof(t1 + 1l) t2 = 4; __typeof__(int *) t3 = &t1; typeof(*t3) t4 = *t3; P(sizeof t2 + t4); const typeof(ga[0]) t5 = &t4; P(*t5); P(sizeof(typeof(int[5]))); P(__builtin_types_compatible_p(int, typeof(t1))); P(__builtin_types_compatible_p(int, long)); P(__builtin_types_compatible_p(char *, const char *)); P(__builtin_constant_p(3 * 4)); P(__builtin_choose_expr(1, 5, 6)); P(__builtin_choose_expr(sizeof(int) == 8, 5, 6)); P(offsetof(struct { char c; long l; int a[4]; }, a[2]));
  P(alignof(char)); P(alignof(short)); P(_Alignof(int)); P(alignof(long double)); P(__alignof__(double)); P(alignof(fwd)); alignas(16) char al[3]; P((uintptr_t)al % 16); struct { char c; alignas(16) char d; } as; P(sizeof as); P((char *)&as.d - (char *)&as); int va __attribute__((aligned(16))); P((uintptr_t)&va % 16); static char sal[5] __attribute__((aligned(128))); P((uintptr_t)sal % 128);
  _Static_assert(sizeof(long) == 8, "l"); bool b = 5; P(b); b = 0.5; P(b); b = (void *)0; P(b); b = gs; P(b); b += 7; P(b); b--; P(b); b |= 2; P(b); b = -b; P(b); P(true + true); P(sizeof b); bool ba[4] = { 1, 2, 0, 256 }; P(ba[3] + ba[1]); P((bool)0x100); P((bool)1e-300);
  int x = 5; P(x++ + 10); P(x); P(--x * 2); x += x -= 2; P(x != 12345); x = 7; x <<= 2; P(x); x ^= x >> 1; P(x); x %= 6; P(x); x = -x; P(-x); P(- -x); P(~x); P(!x); P(!!x); P(+x); P(x = 9); int y, w; y = w = x = 4; P(y + w + x); P((x, y)); x = (y++, y * 2); P(x); P(sizeof(x++)); P(x); P(sizeof(se())); P(sidefx); P(1 ? se() : se()); P(sidefx); P(({ int q = 3; q * q; })); P(({ 1; 2; 3; })); x = ({ if (x > 3) x = 1; x; }); P(x);
  char c = 200; P(c); P(c + 0u); P((unsigned char)c); P(c < 0); c = c + 100; P(c); unsigned char uc = 200; uc += 100; P(uc); P((uc << 8) + uc); short s = 40000; P(s); s >>= 3; P(s); unsigned short us = s; P(us); P((unsigned)us * us); P(-1 < 0u); P(-1 < (unsigned char)0); P((short)-1 < (unsigned short)0); P(-1l < 0u); P(-1ll < 0ul); P((char)-1 == 255); P((unsigned char)-1 == 255); P(1 - 2u > 0); P(1 - 2ul > 5); P((long)(1 - 2u)); P((int)4294967295u); P((unsigned long)-1 == ~0ul); P(-1 >> 1); P(-1u >> 1); P(-8 / 3); P(-8 % 3); P(8 / -3); P(8 % -3); P(INT_MIN / 2); P(INT_MIN + 1); P(LLONG_MIN / 2); P(ULLONG_MAX / 3); P(UINT_MAX * 2u); P(INT_MAX * 2ll); P(0x7fffffff + 1u); P(1 << 30); P(1u << 31); P(1ll << 40); P((1ull << 63) >> 63); P((-1ll) >> 63); P(5 & 3 | 4 ^ 1); P(1 + 2 << 3 - 1); P(1 < 2 == 1); P(6 & 3 == 3); P(10 - 4 - 3); P(100 / 10 / 5); P(2 * 3 % 4); P(-2 * -3); P(1 ? 2 : 3 ? 4 : 5); P(0 ? 2 : 0 ? 4 : 5); P(-1 ^ 5); P(~5 & 0xff); P(!0 + !1);
  int *p = sarr; P(*p++); P(*p); P(*++p); P(--*p); P((*p)++); P(*p); P(*--p); P(p[-1]); P(p - sarr); P(&sarr[3] - p); P(p == sarr + 1); P(p > sarr); P(*(p + 1)); P(1[p]); P(&*p == p); P(&p[0] == p); void *vp = p; P(vp == p); P((int *)vp - sarr); char *cp = (char *)p; cp += sizeof(int); P((int *)cp == p + 1); P((long)p - (long)sarr); uintptr_t ip = (uintptr_t)p; P(*(int *)ip); const volatile int *cv = p; P(*cv); P((p ? *p : 0)); int (*ap)[3] = &sarr; P((*ap)[1]); P(sizeof *ap); P(**ap); P(ap + 1 == (void *)(sarr + 3)); P(!p); P(p && 1); int **ppp = &p; (*ppp)++; P(*p); **ppp = 77; P(sarr[2]); P(vp + 1 > vp); P(sizeof(void)); P((char *)(vp + 3) - (char *)vp);
  P(__builtin_popcount(0xf0f)); P(__builtin_clz(1)); P(__builtin_ctz(8)); P(__builtin_ffs(0)); P(__builtin_ffsl(1l << 40)); P(__builtin_clzll(1)); P(__builtin_ctzl(1l << 50)); P(__builtin_popcountll(~0ull)); P(__builtin_parity(7)); P(__builtin_parityll(1ull << 63)); P(__builtin_clrsb(-1) >= 0);
  extern int ext; { extern int ext; P(ext); } { int tent = 1; { extern int tent; P(tent); } P(tent); } enum { E1, E2 = 10, E3 }; { enum { E1 = 50, E4 }; P(E1 + E4); } P(E1 + E3); typedef int T; { int T = 3; P(T); } { T T = 4; P(T); } struct sx { int a; }; { struct sx { char b[9]; }; P(sizeof(struct sx)); } P(sizeof(struct sx)); int lbl = 1; lbl: if (lbl-- > 0) goto lbl; P(lbl);
  P((int[]){ 1, 2, 3 }[1]); int *cl = (int[4]){ [2] = 5 }; P(cl[2] + cl[0]); for (int i = 0; i < 2; i++) { int *q = (int[]){ i, i + 1 }; q[0] += 10; P(q[0] + q[1]); } struct sx *sp = &(struct sx){ 9 }; P(sp->a); P((struct sx){ .a = 3 }.a);  int zero[100] = { 0 }; D(for (int i = 0; i < 100; i++) H(zero[i])); char part[10] = { 1, 2 }; D(for (int i = 0; i < 10; i++) H(part[i])); int md[2][2][2] = { { { 1 } }, { 2, 3, 4 } }; D(for (int i = 0; i < 8; i++) H(((int *)md)[i])); int br[] = { [5] = 1, 2, [2] = 3, 4 }; P(sizeof br / 4); D(for (int i = 0; i < 7; i++) H(br[i]));
  return 0;
}
