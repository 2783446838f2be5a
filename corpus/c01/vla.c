#include "vf.h"
static int calls; static int n3(void) { calls++; return 3; }
static unsigned long sum(int n, int m, int a[n][m]) { unsigned long s = 0; for (int i = 0; i < n; i++) for (int j = 0; j < m; j++) s = s * 7 + a[i][j]; return s + sizeof a[0]; }
static int tri(int n, int (*f)[n]) { int s = 0; for (int i = 0; i < n; i++) s += f[i][i]; return s; }
static int rec(int n) { char b[n + 1]; memset(b, n, n + 1); if (n <= 0) return 0; int r = rec(n - 1); for (int i = 0; i <= n; i++) if (b[i] != n) return -1000; return r + b[n]; }
static int leave(int n) { for (int i = 0; i < n; i++) { int v[i + 1]; v[i] = i; if (i == 5) return v[i] + sizeof v; if (i == 2) continue; v[0] += 1; } return -1; }
static long gotos(int n) { int k = 0; long h = 0; again: { int v[n + k]; for (int i = 0; i < n + k; i++) v[i] = i * k; h = h * 31 + v[n + k - 1] + sizeof v; if (++k < 5) goto again; } return h; }
struct q { int a[3]; char c; };
static int deep(int n) { int a[n]; a[0] = 1; { int b[n * 2]; b[n] = 2; { char c[n * 3]; c[n] = 3; a[n - 1] = b[n] + c[n]; } { short d[n]; d[n - 1] = 9; a[n - 1] += d[n - 1]; } } return a[n - 1] + (n > 1 ? a[0] : 0); }
int main(void)
{
  int n = 4 + rnd() % 5, m = 3 + rnd() % 4;
  int a[n][m]; for (int i = 0; i < n; i++) for (int j = 0; j < m; j++) a[i][j] = i * 100 + j;
  P(sizeof a == n * m * sizeof(int)); P(sum(n, m, a) == sum(n, m, a)); P(sum(n, m, a)); P(sizeof a[0] / sizeof a[0][0] == m);
  int (*pa)[m] = a; pa++; P(pa[0][1]); P((*pa)[2]); P(pa - a); P(&a[2][1] - &a[0][0]); P((char *)(pa + 1) - (char *)pa);
  int sq[n][n]; for (int i = 0; i < n * n; i++) ((int *)sq)[i] = i; P(tri(n, sq));
  P(sizeof(int[n3()])); P(calls); P(sizeof(char[n][m])); int k = 2; P(sizeof(int[k++])); P(k); typedef short T[n + 1]; n += 3; T t; P(sizeof t / 2 - n); P(sizeof(T)); n -= 3;
  P(rec(20)); P(leave(9)); P(gotos(3)); P(deep(1)); P(deep(5));
  struct q s[n]; memset(s, 0, sizeof s); s[n - 1].c = 7; s[n - 1].a[2] = 9; P(s[n - 1].c + s[n - 1].a[2]); P(sizeof s); struct q *ps = s + n; ps--; P(ps->a[2]); P(ps - s);
  for (int r = 0; r < 3; r++) { double v[r + 1]; for (int i = 0; i <= r; i++) v[i] = i + .5; long z = 0; for (int i = 0; i <= r; i++) z += (long)(v[i] * 2); P(z); }
  char *b[n]; for (int i = 0; i < n; i++) { b[i] = "abcdefghijkl" + i; } D(for (int i = 0; i < n; i++) H(b[i][0])); P(sizeof b);
  int cube[2][n][3]; for (int i = 0; i < 6 * n; i++) ((int *)cube)[i] = i; P(cube[1][n - 1][2]); P(cube[1][0][0]); P(sizeof cube[0]); P(&cube[1][1][1] - &cube[0][0][0]);
  int (*fp)(int, int, int[n][m]) = 0; P(!fp); { unsigned char buf[n * 16 + 1]; for (unsigned i = 0; i < sizeof buf; i++) buf[i] = i; D(for (unsigned i = 0; i < sizeof buf; i++) H(buf[i])); }
  switch (n) { default: { long z[n]; z[n - 1] = 42; P(z[n - 1]); } }
  while (n-- > 2) { int w[n]; w[n - 1] = n; if (n == 4) break; P(w[n - 1]); }
  return 0;
}
