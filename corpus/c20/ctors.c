#include <stdio.h>
#include <stdlib.h>
#include <string.h>
static char *kept[4]; static char early[8] = "early";
__attribute__((constructor)) static void first(void) { kept[0] = malloc(8); strcpy(kept[0], early); }
__attribute__((destructor)) static void last(void) { printf("last %s\n", kept[0]); free(kept[0]); }
static void bye(void) { char b[10]; strcpy(b, "bye"); puts(b); }
static void clean(char **p) { printf("clean %s\n", *p); free(*p); }
static int deep(int n, char *up) { char me[4] = { n, n + 1 }; if (up && up[0] != n + 1) return -1000; return n ? deep(n - 1, me) + me[1] : 0; }
struct big { char c[300]; }; static struct big mk(int k) { struct big b; memset(b.c, k, sizeof b.c); return b; }
static int sum(int n, ...) { __builtin_va_list ap; int s = 0; __builtin_va_start(ap, n); while (n--) { char *p = __builtin_va_arg(ap, char *); s += strlen(p); } __builtin_va_end(ap); return s; }
int main(void) {
  __attribute__((cleanup(clean))) char *c = strdup("cleaned"); int i, t = 0; struct big a[3], *p = a; union { double d; unsigned char b[8]; } u = { 1.5 };
  bye(); printf("%d\n", deep(60, 0));
  for (i = 0; i < 3; i++) a[i] = mk(i + 1); for (p = a; p < a + 3; p++) t += p->c[299]; t += mk(9).c[5]; printf("%d\n", t);
  printf("%d %d\n", sum(3, "a", "bb", "ccc"), u.b[7]);
again:
  { char v[i * 3]; v[i * 3 - 1] = i; t += v[i * 3 - 1]; if (i-- > 1) goto again; } printf("%d\n", t);
  { int m[3][4][5], *q = &m[0][0][0]; for (i = 0; i < 60; i++) q[i] = i; printf("%d %d\n", m[2][3][4], (int)(&m[2] - &m[0])); int (*row)[5] = m[1]; printf("%d\n", row[3][4]); }
  { const char *s[] = { "x", "yy", 0 }, **q; for (q = s, i = 0; *q; q++) i += strlen(*q); printf("%d\n", i); }
  return 0;
}
