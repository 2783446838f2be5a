#include "vf.h"
static int duff(const char *s, char *d, int n) { int k = (n + 7) / 8, c = 0; switch (n % 8) { case 0: do { *d++ = *s++; c++; case 7: *d++ = *s++; case 6: *d++ = *s++; case 5: *d++ = *s++; case 4: *d++ = *s++; case 3: *d++ = *s++; case 2: *d++ = *s++; case 1: *d++ = *s++; } while (--k > 0); } return c; }
static int sw(long long x) { switch (x) { case -9223372036854775807LL - 1: return 1; case -1: return 2; case 0: return 3; case 1 ... 9: return 4; case 10: case 11: return 5; case 0x7fffffff: return 6; case 0x80000000LL: return 7; case 0xffffffffLL: return 8; case 0x100000000LL ... 0x1000000ffLL: return 9; case 9223372036854775807LL: return 10; default: return 11; case -100 ... -50: return 12; } }
static int swu(unsigned x) { switch (x) { case 0u: return 0; case 0x80000000u: return 1; case 0xffffffffu: return 2; case 0x7fffffffu: return 3; case 0xfffffff0u ... 0xfffffffeu: return 4; } return 5; }
static int swc(signed char c) { switch (c) { case -128: return 1; case -1: return 2; case 'a' ... 'z': return 3; case 127: return 4; } return 0; }
static int swuc(unsigned char c) { switch (c) { case 255: return 1; case 128 ... 200: return 2; case 0: return 3; default: switch (c & 3) { case 1: return 4; case 2: break; default: return 5; } } return 6; }
static int swul(unsigned long x) { switch (x) { case 0: return 0; case ~0ul: return 1; case 1ul << 63: return 2; case (1ul << 63) + 1 ... (1ul << 63) + 9: return 3; case (1ul << 63) - 1: return 4; } return 5; }
static int dense(int i) { switch (i) {
#define K(n) case n: return n * 7 + 1;
#define K10(n) K(n##0) K(n##1) K(n##2) K(n##3) K(n##4) K(n##5) K(n##6) K(n##7) K(n##8) K(n##9)
 K10(1) K10(2) K10(3) K10(4) K10(5) K10(6) K10(7) K10(8) K10(9) K10(10) K10(11) K10(12) } return -1; }
static int vm(const unsigned char *p) { static const void *const op[] = { &&halt, &&push, &&add, &&mul, &&dup, &&jnz, &&dec, &&swap }; int st[32], *s = st; const unsigned char *b = p;
 goto *op[*p++]; push: *s++ = *p++; goto *op[*p++]; add: s--; s[-1] += *s; goto *op[*p++]; mul: s--; s[-1] *= *s; goto *op[*p++]; dup: *s = s[-1]; s++; goto *op[*p++]; jnz: if (*--s) p = b + *p; else p++; goto *op[*p++]; dec: --s[-1]; goto *op[*p++]; swap: { int t = s[-1]; s[-1] = s[-2]; s[-2] = t; } goto *op[*p++]; halt: return s[-1]; }
static int lab(int n) { __label__ out; int r = 0; for (;;) { for (;;) { if (r > n) goto out; r += 3; if (r % 2) break; } r *= 2; } out: return r; }
static int sc; static int t(int v) { sc = sc * 10 + v; return v; } static int z(int v) { sc = sc * 10 + v; return 0; }
static int ack(int m, int n) { return m == 0 ? n + 1 : n == 0 ? ack(m - 1, 1) : ack(m - 1, ack(m, n - 1)); }
static int even(unsigned); static int odd(unsigned n) { return n ? even(n - 1) : 0; } static int even(unsigned n) { return n ? odd(n - 1) : 1; }
int main(void)
{
  char s[100], d[100]; for (int i = 0; i < 100; i++) s[i] = i; for (int n = 1; n < 40; n++) { memset(d, 0, 100); P(duff(s, d, n)); D(for (int i = 0; i < 50; i++) H(d[i])); }
  static const long long v[] = { -9223372036854775807LL - 1, -9223372036854775807LL, -101, -100, -75, -50, -49, -1, 0, 1, 5, 9, 10, 11, 12, 0x7ffffffe, 0x7fffffff, 0x80000000LL, 0xfffffffeLL, 0xffffffffLL, 0x100000000LL, 0x1000000ffLL, 0x100000100LL, 9223372036854775806LL, 9223372036854775807LL, -2147483648LL, -4294967297LL };
  for (unsigned i = 0; i < sizeof v / sizeof *v; i++) { P(sw(v[i])); P(swu(v[i])); P(swul(v[i])); } for (int i = -129; i < 258; i += 1 + (i & 3)) { P(swc(i)); P(swuc(i)); } P(swul(1ul << 63)); P(swul((1ul << 63) + 5)); P(swul((1ul << 63) + 10)); P(swul(~0ul - 1)); P(swu(-1)); P(swu(-10)); for (int i = 0; i < 140; i += 3) P(dense(i));
  P(vm((unsigned char[]){ 1, 7, 1, 6, 3, 0 })); P(vm((unsigned char[]){ 1, 1, 1, 5, 4, 5, 8, 0, 7, 4, 2, 7, 6, 4, 5, 8, 7, 0 })); P(lab(50));
  P(t(1) && z(2) && t(3)); P(sc); sc = 0; P(t(1) || z(2)); P(sc); sc = 0; P((z(1) || t(2)) && (z(3) || z(4)) || t(5)); P(sc); sc = 0; P(t(1) ? z(2) ? t(3) : t(4) : t(5)); P(sc); sc = 0; if (z(1) || (t(2) && !z(3))) P(1); else P(2); P(sc); sc = 0; P((t(1), z(2), t(3))); P(sc); sc = 0; P(!(t(1) && t(2)) || !z(3)); P(sc); sc = 0; while (t(1) && sc < 1000) ; P(sc); sc = 0; do t(2); while (z(1) || sc < 100); P(sc); int x = 5; x = x > 3 ? x < 9 ? 1 : 2 : 3; P(x); sc = 0; P(1 && 0 || t(1)); P(0 && t(2)); P(1 || t(3)); P(sc);
  P(ack(2, 6)); P(even(101)); P(odd(77)); int i, j, k = 0; for (i = 0, j = 10; i < j; i++, --j) k += i * j; P(k); for (i = 0; i < 5; i++) { if (i == 1) continue; if (i == 4) break; k += i; } P(k); P(i); i = 0; do { if (++i == 3) continue; k ^= i; } while (i < 6); P(k); for (;;) { if (k++ > 100) break; } P(k); { int k = 3; { int k = 4; P(k); } P(k); } for (int i = 0; i < 2; i++) for (int i = 0; i < 2; i++) P(i); P(i);
  goto in; { int h; in: h = 7; P(h); } k = 3; back: if (k-- > 0) { P(k); goto back; } if (0) { never: P(99); } else P(98); switch (3) { int u; case 3: u = 4; P(u); if (u) break; case 4: P(5); default: P(6); } switch (k) default: P(7); switch (k) { } if (k) ; else ; for (int q = 0; q < 3; ({ q++; })) P(q);
  unsigned uu = 3; while (uu-- > 0) P(uu); P(uu); unsigned char c = 250; int cnt = 0; while (c++) cnt++; P(cnt); signed char scn = 120; for (cnt = 0; scn > 0 && cnt < 50; cnt++) scn++; P(cnt); P(scn); long long ll = 1; for (cnt = 0; ll > 0 && cnt < 62; ll <<= 1) cnt++; P(cnt); P(ll); if (!ll == 0) P(1); if ((ll & 0xffffffff) == 0) P(2); if (ll) P(3); if (ll >> 32) P(4); if ((int)ll) P(5); else P(6); P(ll ? 1 : 2); P(!ll); P(!!ll); P(ll && 1); float f = .5; if (f) P(7); P(f ? 1 : 2); P(!f); P(f && 1); double nd = -0.0; if (nd) P(8); else P(9); P(!nd); void *vp = s; if (vp) P(10); P(!vp); P(vp ? 3 : 4); P(vp && nd); int (*fp)(int) = t; if (fp) P(11); P(fp == t); P(!fp); P(fp != z);
  return 0;
}
