#include "vf.h"
static long v[32]; static long f1(long a) { return a * 3 + 1; } static long f3(long a, long b, long c) { return a - b * c; } static long f8(long a, long b, long c, long d, long e, long f, long g, long h) { return a + 2 * b + 3 * c + 4 * d + 5 * e + 6 * f + 7 * g + 8 * h; } static int i2(int a, int b) { return a * 10 + b; } static double d2(double a, double b) { return a / (b + 1); } static struct pr { long a, b; } mkp(long a, long b) { return (struct pr){ a, b }; }
#define R4(x) x, x + 1, x + 2, x + 3
int main(void)
{
  for (int i = 0; i < 32; i++) v[i] = rnd() % 1000;
  P(v[0] + (v[1] * (v[2] - (v[3] + (v[4] * (v[5] - (v[6] + (v[7] ^ (v[8] | (v[9] & (v[10] + (v[11] - (v[12] * (v[13] + (v[14] - v[15])))))))))))))));
  P((v[0] + v[1]) * (v[2] + v[3]) - (v[4] + v[5]) * (v[6] + v[7]) + ((v[8] - v[9]) ^ (v[10] + v[11])) * ((v[12] | v[13]) + (v[14] & v[15])));
  P(((v[0] * v[1] + v[2] * v[3]) * (v[4] + v[5]) % 1000003) * ((v[6] * v[7] + v[8] * v[9]) % 1009) / (v[10] % 7 + 1) % (v[11] + 3)); P(v[0] / (v[1] / (v[2] / (v[3] + 1) + 1) + 1)); P((v[0] % (v[1] + 1)) / (v[2] % 5 + 1) * (v[3] << (v[4] & 7)) >> (v[5] & 3)); P(v[0] << (v[1] & 3) << (v[2] & 3) << (v[3] & 3)); P((v[0] << (v[1] & 7)) + (v[2] >> (v[3] & 7)) - (v[4] << (v[5] & 7)) * (v[6] >> (v[7] & 3)));
  P(f8(f1(v[0]), f3(v[1], f1(v[2]), v[3]), v[4] * f1(v[5]), f8(1, 2, 3, 4, 5, 6, 7, f1(8)), v[6] / (v[7] + 1), f1(f1(f1(v[8]))), v[9] % (v[10] + 1), f3(f1(1), f1(2), f1(3)))); P(f1(v[0]) + f1(v[1]) * f1(v[2]) - f1(v[3]) * (f1(v[4]) + v[5] * f1(v[6]))); P(v[0] * 2 + f3(v[1], v[2], v[3]) * v[4] + (v[5] - f1(v[6])) * (f3(v[7], v[8], v[9]) % (v[10] + 9)));
  int a = v[0], b = v[1], c = v[2]; P((a + b) * c / (a + 1) + b % (c + 1) * (a << (b & 7)) - i2(a, i2(b, c)) / (i2(c % 10, a % 10) + 1)); P(a / (b + 1) / (c + 1) + a % (b + 1) % (c + 1)); P((a > b) + (b > c) * 2 + (c > a) * 4 + (a == b) * 8 + (f1(a) > f1(b)) * 16); P((a > b ? f1(a) : f1(b)) + (b > c ? v[3] : f3(1, 2, 3)) * (c ? a : b)); P((a && b || c) + (f1(a) && f1(b)) * 2 + !(a || f1(c)) * 4); double d = 1.5; P(d2(d2(a, b), d2(c, d)) * d2(d, a) * 1000 + f1(b)); P((long)(d * a + b * d2(c, 2) - (d + a) * (d - b))); float fl = .25f; P((fl * a + fl * b) * (fl + c)); long double ld = 2.5L; P((long)((ld + a) * (ld - b) + ld * (c + ld * (a - ld)))); P((long)(ld * d2(a, ld) + fl * ld));
  P(v[a % 32] + v[v[b % 32] % 32] * v[v[v[c % 32] % 32] % 32]); v[v[3] % 32] = v[v[4] % 32] + f1(v[5]); v[(a + b) % 32] += v[(b + c) % 32] * (v[1] - f1(2)); long *p = v; *(p + a % 32) -= *(p + b % 32) * f1(*(p + c % 32)); p[f1(a) % 32] = f3(p[1], p[2], p[3]); D(for (int i = 0; i < 32; i++) H(v[i])); P(mkp(a, b).a + mkp(f1(c), 2).a * mkp(3, mkp(4, b).b).b); long q[] = { R4(a * b), R4(f1(c)), R4(a - b) }; D(for (int i = 0; i < 12; i++) H(q[i]));
  unsigned char uc[8]; for (int i = 0; i < 8; i++) uc[i] = rnd(); P(((uc[0] & 127) << 24 | uc[1] << 16 | uc[2] << 8 | uc[3]) ^ (uc[4] * uc[5] + uc[6] * uc[7])); P((unsigned)uc[0] << 24 | uc[1] << 16 | uc[2] << 8 | uc[3]); unsigned long ul = (unsigned long)uc[0] << 56 | (unsigned long)uc[1] << 48 | (unsigned long)uc[2] << 40 | (unsigned long)uc[3] << 32 | (unsigned long)uc[4] << 24 | uc[5] << 16 | uc[6] << 8 | uc[7]; P(ul); uc[0] = uc[1] + uc[2] * uc[3]; uc[4] -= uc[5]; uc[6] <<= 3; uc[7] >>= 1; D(for (int i = 0; i < 8; i++) H(uc[i])); P(((a * 3 + b) * 5 + c) * 7 + ((c * 3 + b) * 5 + a) * 11 + (a ^ b ^ c) * 13 + (a & b | c) * 17 + ((a | b) & c) * 19 + (a - b - c) * 23 + (a - (b - c)) * 29); 
  P(1 + 2 * (3 + 4 * (5 + 6 * (7 + 8 * (9 + 10 * (a + 1)))))); P(a * 1 + b * 2 + c * 4 + a * 8 - b * 16 + c * 32 - a * 3 + b * 5 * 0 + (a + 0) * (b - 0) + (c | 0) + (a & -1) + (b ^ 0) + (c << 0) + a / 1 + b % 1 + (a & 0) + 0 * b + (c ^ c) + (a - a)); P((unsigned)a / 8 + (unsigned)b % 16 + (unsigned)c / 1u * 32u + -a / 8 + -b % 16 + -c / 4 * 4); P(-v[0] / 8 + -v[1] % 64 + (v[2] - 2000) / 2 + (v[3] - 2000) % 2 + (unsigned long)v[4] / 1024 + (unsigned long)-v[5] % 1024 + (v[6] * 65536 >> 16) + v[7] * -1 + v[8] * -8 + v[9] / -1 + v[10] / -4);
  return 0;
}
