#include "vf.h"
static int n_; static int bump(int v) { n_ += v; return v; }
struct bf { unsigned long long a : 40; long long b : 37; unsigned c : 5; int d : 9; unsigned long long e : 64; } bf = { 0x8000000000ull, -1ll << 35, 17, -3, 1ull << 63 };
/* leaving the scope of a variable length array by every way, often enough that a stack that is not given back ends */
static long by_goto(int n) { long s = 0; int i = 0; again: { char v[n * 64 + 1]; v[0] = i; v[n * 64] = 1; s += v[0] + v[n * 64]; if (++i < 20000) goto again; } return s; }
static long by_goto2(int n) { long s = 0; for (int i = 0; i < 20000; i++) { char v[n * 8]; v[1] = i; { char w[n * 64]; w[n] = 2; s += w[n] + v[1]; if (i & 1) goto out; } s += 3; out: ; } return s; }
static long by_continue(int n) { long s = 0; for (int i = 0; i < 20000; i++) { char v[n * 64]; v[n] = i; s += v[n]; if (i % 3) continue; { char w[n]; w[0] = 1; s += w[0]; if (i & 1) continue; s++; } } return s; }
static long by_break(int n) { long s = 0; for (int i = 0; i < 20000; i++) while (1) { char v[n * 64]; v[n] = i; s += v[n]; switch (i & 3) { case 0: { char w[n]; w[0] = 1; s += w[0]; break; } default: s++; } if (i & 1) break; { char z[n * 2]; z[n] = 4; s += z[n]; break; } } return s; }
static long by_switch(int n) { long s = 0; for (int i = 0; i < 20000; i++) { switch (i % 5) { case 0: { char v[n * 64]; v[0] = i; s += v[0]; goto next; } case 1: { char v[n * 64]; v[0] = 2; s += v[0]; break; } default: s += 2; } s++; next: ; } return s; }
static long by_expr(int n) { long s = 0; for (int i = 0; i < 20000; i++) s += ({ char v[n * 64]; v[n] = i; v[0] = 1; if (i % 7 == 0) continue; v[n] + v[0]; }); return s; }
static long by_computed(int n) { static void *t[] = { &&a, &&b, &&c }; long s = 0; int i = 0; a: { char v[n * 32]; v[0] = i; s += v[0]; if (++i > 3000) goto c; goto *t[i & 1]; } b: { char v[n * 16]; v[1] = 1; s += v[1]; i++; goto *t[0]; } c: return s; }
static long by_return(int n) { char v[n * 64]; v[0] = n; if (n & 1) return v[0]; { char w[n]; w[n - 1] = 3; return w[n - 1] + v[0]; } }
static int sw(unsigned long long x) { switch (x) { case 0: return 1; case 0x100000000ull: return 2; case 0x100000001ull ... 0x1000000ffull: return 3; case 0x200000000ull: return 4; case 0xffffffffull: return 5; case ~0ull: return 6; case 7: return 7; case 0x300000007ull: return 8; case 0x7fffffffffffffffull: return 9; case 0x8000000000000000ull: return 10; case 0x80000000ull: return 11; case 0x400000000ull ... 0x4ffffffffull: return 12; case 99: return 13; case 0x9900000063ull: return 14; case 100 ... 120: return 15; case 0x700000000ull: return 16; case 0x600000000ull: return 17; case 0x500000005ull: return 18; default: return 0; } }
int main(void)
{
  int n = 60 + rnd() % 9;
  P(by_goto(n)); P(by_goto2(n)); P(by_continue(n)); P(by_break(n)); P(by_switch(n)); P(by_expr(n)); P(by_computed(n)); { long s = 0; for (int i = 0; i < 9000; i++) s += by_return(n + i % 5); P(s); }
  P(bf.a ?: 5); P(bf.b ?: 5); P(bf.c ?: 5); P(bf.d ?: 5); P(bf.e ?: 5); P((bf.a ?: 1) >> 3); P((bf.b ?: 1) < 0); P((bf.d ?: 1) < 0); bf.c = 0; P(bf.c ?: bump(9)); P(bf.a ? bf.a : 1); P(bf.c ? (unsigned)1 : bf.b);
  n_ = 0; P(1 ?: bump(1)); P(n_); P(0 ?: bump(2)); P(n_); P(2 + 3 ?: bump(4)); P(n_); P("s" ? bump(8) : bump(16)); P(n_); P(1 || bump(32)); P(0 && bump(64)); P(1 && bump(128)); P(0 || bump(256)); P(n_); P(1 ? bump(1) : bump(2)); P(0 ? bump(1) : bump(2)); P(n_); P((1, 0) ?: bump(5)); P(n_); P(0.0 ?: 2.5 + bump(1) > 3); P(n_); P(bump(0) ?: bump(3)); P(n_); P(bump(6) ?: bump(3)); P(n_); P(-0.0 ? 1 : 2); P(1e-300 ? 1 : 2); P(!0.5); P(0.1 && 1); P(0 ? 1 / 0 : 3); P(1 || 1 / 0);
  P((bump(1) ? 3 : 4ll) + sizeof(1 ? 1 : 1ll)); P(({ int k = 0; for (int i = 0; i < 5; i++) { if (i == 3) break; k += ({ if (i == 1) continue; i * 10; }); } k; })); int a = 3; P(a-- ?: 7); P(a); P((a = 0) ?: a + 1); P((a += 2) ?: 1); char c = -1; P(c ?: 3); P((unsigned char)(c ?: 3)); unsigned short us = 65535; P(us ?: 1); P((us ?: -1) < 0); P(sizeof(c ?: 1)); P(sizeof(c ?: 1ll)); long double ld = 0; P((int)(ld ?: 2.5L)); int *p = 0; P((p ?: &a) == &a); p = &n; P(*(p ?: &a) == n);
  for (int i = 0; i < 20; i++) { static const unsigned long long t[20] = { 0, 1ull << 32, (1ull << 32) + 5, 2ull << 32, 0xffffffff, ~0ull, 7, 0x300000007, 0x7fffffffffffffff, 1ull << 63, 1u << 31, 0x4abcdef01, 99, 0x9900000063, 110, 0x700000000, 0x600000000, 0x500000005, 5, 0xffffffff80000000 }; P(sw(t[i])); }
  long long big = 0x123456789abcdefll; char cc; short ss; P((cc = big)); P((long long)(ss = big + 0x8000)); P((cc = ss = big)); P((ss = cc = big) < 0); P((unsigned long long)(cc = 0x80ull)); P((cc = big) + big); signed char sc = -5; P((unsigned short)sc); P((unsigned short)sc + 0u); P((unsigned)(unsigned short)sc >> 4); volatile signed char vs = -1; P((unsigned short)vs == 65535); P((int)(unsigned short)vs); P((long)(unsigned short)vs); P((unsigned short)(vs + 0)); P((unsigned char)vs + 0ll); P((short)(unsigned char)vs); unsigned short h = vs; P(h); h += vs; P(h);
  return 0;
}
