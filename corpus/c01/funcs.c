#include "vf.h"
#include <setjmp.h>
#include <signal.h>
typedef int (*cmp)(const void *, const void *); static int up(const void *a, const void *b) { int x = *(int *)a, y = *(int *)b; return x < y ? -1 : x > y; } static int down(const void *a, const void *b) { return -up(a, b); }
static cmp pick(int w) { return w ? up : down; } static int (*pick2(int w))(const void *, const void *) { return w ? &down : &up; } static cmp tab[2] = { up, down };
static long va(const char *f, ...) { va_list a, b; long r = 0; va_start(a, f); va_copy(b, a); for (const char *p = f; *p; p++) switch (*p) { case 'i': r = r * 3 + va_arg(a, int); break; case 'l': r = r * 5 + va_arg(a, long); break; case 'd': r = r * 7 + (long)(va_arg(a, double) * 4); break; case 's': r = r * 11 + strlen(va_arg(a, char *)); break; case 'c': r = r * 13 + (char)va_arg(a, int); break; case 'L': r = r * 17 + (long)(va_arg(a, long double) * 2); break; case 'u': r = r * 19 + va_arg(a, unsigned); break; case 'p': r = r * 23 + *va_arg(a, int *); break; } va_end(a); if (*f == 'i' || *f == 'c') r += va_arg(b, int); va_end(b); return r; }
static long vsum(int n, va_list ap) { long s = 0; while (n-- > 0) s = s * 2 + va_arg(ap, int); return s; } static long fsum(int n, ...) { va_list ap; va_start(ap, n); long r = vsum(n, ap); va_end(ap); return r; }
static long many(char a, short b, int c, long d, unsigned char e, unsigned short f, unsigned g, unsigned long h, signed char i, long long j, int k, char l, short m) { return a + 2 * b + 3 * c + 5 * d + 7 * e + 11 * f + 13 * g + 17 * h + 19 * i + 23 * j + 29 * k + 31 * l + 37 * m; }
static double mixed(int a, double b, char c, float d, long e, double f, float g, short h, double i, double j, float k, double l, int m, double n, float o) { return a + b * 2 + c * 3 + d * 5 + e * 7 + f * 11 + g * 13 + h * 17 + i * 19 + j * 23 + k * 29 + l * 31 + m * 37 + n * 41 + o * 43; }
static int kr(a, b, c) int a; char b; long c; { return a + b * 2 + c * 3; }
static int fib(int n) { return n < 2 ? n : fib(n - 1) + fib(n - 2); } static int stat(void) { static int n = 10, *p = &n; static char b[3] = "ab"; b[0]++; return ++*p + b[0]; }
static inline int inl(int x) { return x * x; } static void swap(int *a, int *b) { int t = *a; *a = *b; *b = t; } static void fill(int *a, int n) { while (n--) *a++ = rnd() % 1000; } static int arrp(int a[static 3], int const b[4], char (*c)[5]) { return a[2] + b[3] + (*c)[4] + sizeof a + sizeof *c; }
static jmp_buf jb; static volatile int jv; static void jump(int n) { char pad[100]; memset(pad, n, 100); if (n) jump(n - 1); else longjmp(jb, 42); jv += pad[3]; } static volatile sig_atomic_t got; static void hnd(int s) { got = s; }
static int (*(*fpp)(int))(const void *, const void *) = pick2; static void cleanup(int *p) { P(*p + 1000); } static int ret_early(int n) { for (int i = 0; i < 3; i++) { __attribute__((cleanup(cleanup))) int k = i; if (i == n) return i; } return -1; }
static struct { int x, y; } gs; static int *gp(void) { jv++; return &gs.y; } static unsigned char ucf(int x) { return x; } static signed char scf(int x) { return x; } static _Bool bf(int x) { return x; } static short sf(int x) { return x; } static float ff(double x) { return x; } static void vf(void) { return; } static void vf2(void) { return vf(); }
extern int printf(const char *, ...); static int later(int); static int use_later(int x) { return later(x) + 1; } static int later(int x) { return x * 3; } static int nest(int a, int b, int c, int d, int e, int f, int g) { return a ^ b * 2 ^ c * 4 ^ d * 8 ^ e * 16 ^ f * 32 ^ g * 64; }
_Noreturn static void die(int c) { printf("bye\n"); exit(c); } static int deflt(int n) { if (n > 0) return deflt(n - 1) + n; return 0; }
int main(void)
{
  int a[50]; fill(a, 50); qsort(a, 50, sizeof *a, pick(1)); D(for (int i = 0; i < 50; i++) H(a[i])); qsort(a, 50, sizeof *a, tab[1]); D(for (int i = 0; i < 50; i++) H(a[i])); qsort(a, 50, 4, (*pick2)(0)); P(a[0] <= a[49]); int k = a[25]; int *f = bsearch(&k, a, 50, sizeof *a, fpp(0)); P(*f == k); P((rnd() & 1 ? up : down)(a, a + 49) != 5); P((*tab[0])(a, a)); P((**tab)(a, a)); P(tab[0] == up); P(fpp(1) == down);
  P(va("iildsc", 1, -2, 3L, 2.25, "four", 'x')); P(va("ddddddddddd", 1., 2., 3., 4., 5., 6., 7., 8., 9., 10., 11.) & 0xffff0000); P(va("iiiiiiiiii", 1, 2, 3, 4, 5, 6, 7, 8, 9, 10)); P(va("iLiLpu", 7, 2.5L, 8, 3.5L, &k, 4000000000u)); P(va("idididididididid", 1, 1.5, 2, 2.5, 3, 3.5, 4, 4.5, 5, 5.5, 6, 6.5, 7, 7.5, 8, 8.5)); P(va("ccll", (char)-3, (signed char)-4, -5l, 1l << 40)); P(fsum(9, 1, 2, 3, 4, 5, 6, 7, 8, 9)); P(fsum(0)); char cc = -7; short ss = -300; float fl = 1.5f; P(va("iid", cc, ss, fl));
  P(many(-1, -2, -3, -4, 255, 65535, 4000000000u, ~0ul, -128, -9, 10, 127, -32768)); P(mixed(1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15)); P(kr(1, 258, 3L)); P(fib(15)); P(stat()); P(stat()); P(inl(inl(3))); int x = 1, y = 2; swap(&x, &y); P(x * 10 + y); char c5[5] = { 1, 2, 3, 4, 5 }; P(arrp(a, a + 3, &c5)); (*gp())++; *gp() += 5; P(gs.y); P(jv); gp()[0] = 3; P(gs.y);
  P(ucf(-1)); P(scf(200)); P(bf(256)); P(bf(0)); P(sf(70000)); P(ff(0.1) == 0.1); P((int)ucf(300) + 1); P(ucf(511) == 255); P(-ucf(1)); vf(); vf2(); (void)vf2(); (rnd() & 1) ? vf() : vf2(); P(use_later(5)); P(nest(fib(5), nest(1, 2, 3, 4, 5, 6, 7), fib(6), nest(7, 6, 5, 4, 3, 2, fib(3)), x, inl(y), later(2))); P(deflt(1000)); P(ret_early(1)); P(ret_early(9));
  int r = setjmp(jb); if (!r) { jv = 5; jump(10); } else { P(r); P(jv); } signal(SIGUSR1, hnd); raise(SIGUSR1); P(got); volatile int cnt = 0; if (setjmp(jb) < 3) { cnt++; if (cnt < 5) longjmp(jb, cnt); } P(cnt);
  int (*fa[3])(int) = { inl, fib, later }; for (int i = 0; i < 3; i++) P(fa[i](7)); int (**fq)(int) = fa; fq++; P((*fq)(6)); P((*fq--)(5)); P((*fq)(4)); P(sizeof fa); die(7);
}
