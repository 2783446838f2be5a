#include "vf.h"
static uint32_t K[64]; static uint32_t rotr(uint32_t x, int n) { return x >> n | x << (32 - n); }
static void sha256(const unsigned char *m, size_t n, unsigned char *out) { static const unsigned char pr[] = { 2, 3, 5, 7, 11, 13, 17, 19 }; uint32_t h[8] = { 0x6a09e667, 0xbb67ae85, 0x3c6ef372, 0xa54ff53a, 0x510e527f, 0x9b05688c, 0x1f83d9ab, 0x5be0cd19 }; (void)pr; size_t tot = ((n + 8) / 64 + 1) * 64; unsigned char *b = calloc(tot, 1); memcpy(b, m, n); b[n] = 0x80; for (int i = 0; i < 8; i++) b[tot - 1 - i] = (uint64_t)n * 8 >> 8 * i;
 for (size_t o = 0; o < tot; o += 64) { uint32_t w[64]; for (int i = 0; i < 16; i++) w[i] = (uint32_t)b[o + 4 * i] << 24 | b[o + 4 * i + 1] << 16 | b[o + 4 * i + 2] << 8 | b[o + 4 * i + 3]; for (int i = 16; i < 64; i++) { uint32_t s0 = rotr(w[i - 15], 7) ^ rotr(w[i - 15], 18) ^ w[i - 15] >> 3, s1 = rotr(w[i - 2], 17) ^ rotr(w[i - 2], 19) ^ w[i - 2] >> 10; w[i] = w[i - 16] + s0 + w[i - 7] + s1; }
  uint32_t v[8]; memcpy(v, h, 32); for (int i = 0; i < 64; i++) { uint32_t t1 = v[7] + (rotr(v[4], 6) ^ rotr(v[4], 11) ^ rotr(v[4], 25)) + (v[4] & v[5] ^ ~v[4] & v[6]) + K[i] + w[i], t2 = (rotr(v[0], 2) ^ rotr(v[0], 13) ^ rotr(v[0], 22)) + (v[0] & v[1] ^ v[0] & v[2] ^ v[1] & v[2]); for (int k = 7; k; k--) v[k] = v[k - 1]; v[4] += t1; v[0] = t1 + t2; } for (int i = 0; i < 8; i++) h[i] += v[i]; }
 free(b); for (int i = 0; i < 32; i++) out[i] = h[i / 4] >> (24 - i % 4 * 8); }
static uint32_t crct[256]; static uint32_t crc(const void *p, size_t n) { const uint8_t *s = p; uint32_t c = ~0u; while (n--) c = crct[(c ^ *s++) & 0xff] ^ c >> 8; return ~c; }
static void bigmul(uint32_t *r, const uint32_t *a, int n, uint32_t m) { uint64_t c = 0; for (int i = 0; i < n; i++) { c += (uint64_t)a[i] * m; r[i] = c; c >>= 32; } }
static uint32_t bigdiv(uint32_t *r, int n, uint32_t d) { uint64_t rem = 0; while (n--) { rem = rem << 32 | r[n]; r[n] = rem / d; rem %= d; } return rem; }
static void qs(long *a, long lo, long hi) { while (lo < hi) { long p = a[(lo + hi) / 2], i = lo, j = hi; do { while (a[i] < p) i++; while (p < a[j]) j--; if (i <= j) { long t = a[i]; a[i++] = a[j]; a[j--] = t; } } while (i <= j); if (j - lo < hi - i) qs(a, lo, j), lo = i; else qs(a, i, hi), hi = j; } }
static int queens(int n, unsigned c, unsigned l, unsigned r) { unsigned f = ~(c | l | r) & ((1u << n) - 1); int s = 0; if (c == (1u << n) - 1) return 1; while (f) { unsigned b = f & -f; f ^= b; s += queens(n, c | b, (l | b) << 1, (r | b) >> 1); } return s; }
static size_t lz(const uint8_t *in, size_t n, uint8_t *out) { size_t o = 0, i = 0; while (i < n) { size_t bl = 0, bo = 0; for (size_t j = i > 255 ? i - 255 : 0; j < i; j++) { size_t l = 0; while (i + l < n && l < 127 && in[j + l] == in[i + l]) l++; if (l > bl) bl = l, bo = i - j; } if (bl > 3) { out[o++] = 0x80 | bl; out[o++] = bo; i += bl; } else { out[o++] = 1; out[o++] = in[i++]; } } return o; }
static size_t unlz(const uint8_t *in, size_t n, uint8_t *out) { size_t o = 0; for (size_t i = 0; i < n; i += 2) if (in[i] & 0x80) { int l = in[i] & 0x7f; const uint8_t *s = out + o - in[i + 1]; while (l--) out[o++] = *s++; } else out[o++] = in[i + 1]; return o; }
static const char *ep; static long ex(void); static long pr(void) { long v = 0; while (*ep == ' ') ep++; if (*ep == '(') { ep++; v = ex(); ep++; } else if (*ep == '-') { ep++; v = -pr(); } else while (*ep >= '0' && *ep <= '9') v = v * 10 + *ep++ - '0'; while (*ep == ' ') ep++; return v; } static long tm(void) { long v = pr(); while (*ep == '*' || *ep == '/' || *ep == '%') { char o = *ep++; long w = pr(); v = o == '*' ? v * w : w ? o == '/' ? v / w : v % w : 0; } return v; } static long ex(void) { long v = tm(); while (*ep == '+' || *ep == '-') v = *ep++ == '+' ? v + tm() : v - tm(); return v; }
struct ent { struct ent *n; unsigned k; int v; }; static struct ent *ht[64]; static int *get(unsigned k) { struct ent **p = &ht[k * 2654435761u >> 26]; while (*p && (*p)->k != k) p = &(*p)->n; if (!*p) { *p = calloc(1, sizeof **p); (*p)->k = k; } return &(*p)->v; }
static void perm(char *s, int k, int n) { if (k == n) { for (int i = 0; i < n; i++) H(s[i]); return; } for (int i = k; i < n; i++) { char t = s[k]; s[k] = s[i]; s[i] = t; perm(s, k + 1, n); t = s[k]; s[k] = s[i]; s[i] = t; } }
static uint64_t modpow(uint64_t b, uint64_t e, uint32_t m) { uint64_t r = 1; for (b %= m; e; e >>= 1, b = b * b % m) if (e & 1) r = r * b % m; return r; } static unsigned gcd(unsigned a, unsigned b) { return b ? gcd(b, a % b) : a; } static unsigned isq(unsigned long n) { unsigned long r = 0, b = 1ul << 62; while (b > n) b >>= 2; while (b) { if (n >= r + b) n -= r + b, r = (r >> 1) + b; else r >>= 1; b >>= 2; } return r; }
int main(void)
{
  for (int i = 0, n = 2; i < 64; n++) { int ok = 1; for (int d = 2; d * d <= n; d++) if (n % d == 0) ok = 0; if (ok) { uint64_t lo = 0, hi = 1ull << 36; while (hi - lo > 1) { uint64_t m = (lo + hi) / 2; __extension__ uint64_t a = m >> 18, b = m & 0x3ffff, hh = a * a * a; (void)b; (void)hh; double c = (double)m / 4294967296.0; if (c * c * c <= n) lo = m; else hi = m; } K[i++] = (uint32_t)lo; } }
  unsigned char md[32], buf[700]; for (int i = 0; i < 700; i++) buf[i] = rnd(); for (int n = 0; n < 700; n += 67) { sha256(buf, n, md); D(for (int i = 0; i < 32; i++) H(md[i])); }
  for (uint32_t i = 0; i < 256; i++) { uint32_t c = i; for (int k = 0; k < 8; k++) c = c & 1 ? 0xedb88320 ^ c >> 1 : c >> 1; crct[i] = c; } P(crc("123456789", 9)); P(crc(buf, 700));
  uint32_t big[40] = { 1 }; for (int i = 2; i < 60; i++) bigmul(big, big, 40, i); char dec[200]; int n = 0; for (;;) { int z = 0; for (int i = 0; i < 40; i++) z |= big[i] != 0; if (!z) break; dec[n++] = '0' + bigdiv(big, 40, 10); } dec[n] = 0; S(dec);
  long a[500]; for (int i = 0; i < 500; i++) a[i] = ((long)rnd() << (i % 20)) * (i & 1 ? -1 : 1); qs(a, 0, 499); int bad = 0; for (int i = 1; i < 500; i++) bad += a[i - 1] > a[i]; P(bad); D(for (int i = 0; i < 500; i++) H(a[i])); P(queens(6, 0, 0, 0)); P(queens(8, 0, 0, 0));
  uint8_t src[2000], cmp[4100], dst[2200]; for (int i = 0; i < 2000; i++) src[i] = i % 97 < 60 ? "the quick brown "[i % 16] : rnd() % 5; size_t cn = lz(src, 2000, cmp), dn = unlz(cmp, cn, dst); P(cn); P(dn); P(memcmp(src, dst, 2000)); ep = "1 + 2 * (3 - 4 * (5 + 6)) / 7 - -8 % 3 * (100 - 1)"; P(ex()); ep = "((((1))))*9-8*7%6"; P(ex());
  for (int i = 0; i < 3000; i++) ++*get(rnd() % 200); D(for (int i = 0; i < 200; i++) H(*get(i))); char s[] = "abcdef"; D(perm(s, 0, 6)); P(modpow(3, 1000003, 1000000007)); { unsigned q = rnd(); P(modpow(q, rnd(), 4294967291u)); }; P(gcd(123456, 7890)); P(isq(1ul << 60)); P(isq(rnd())); static char sieve[5000]; int pc = 0; for (int i = 2; i < 5000; i++) if (!sieve[i]) { pc++; for (int j = i; j < 5000; j += i) sieve[j] = 1; } P(pc);
  static int m1[12][12], m2[12][12], m3[12][12]; for (int i = 0; i < 144; i++) m1[i / 12][i % 12] = rnd() % 100, m2[i % 12][i / 12] = rnd() % 100 - 50; for (int i = 0; i < 12; i++) for (int j = 0; j < 12; j++) for (int k = 0; k < 12; k++) m3[i][j] += m1[i][k] * m2[k][j]; D(for (int i = 0; i < 144; i++) H(((int *)m3)[i])); static unsigned char lf[32][32], lg[32][32]; for (int i = 0; i < 1024; i++) lf[i >> 5][i & 31] = rnd() % 3 == 0; for (int g = 0; g < 10; g++) { for (int y = 0; y < 32; y++) for (int x = 0; x < 32; x++) { int c = 0; for (int dy = -1; dy <= 1; dy++) for (int dx = -1; dx <= 1; dx++) c += (dx || dy) && lf[y + dy & 31][x + dx & 31]; lg[y][x] = c == 3 || (c == 2 && lf[y][x]); } memcpy(lf, lg, sizeof lf); } D(for (int i = 0; i < 1024; i++) H(((char *)lf)[i]));
  return 0;
}
