#define _GNU_SOURCE
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <ctype.h>
#include <time.h>
#include <errno.h>
#include <unistd.h>
#include <signal.h>
#include <setjmp.h>
#include <locale.h>
#include <sys/mman.h>
#include <sys/wait.h>
static int cmp(const void *a, const void *b) { return *(const int *)a - *(const int *)b; }
static int cmps(const void *a, const void *b) { return strcmp(*(char *const *)a, *(char *const *)b); }
static volatile int hits; static sigjmp_buf jb;
static void on(int s) { char b[32]; sprintf(b, "%d", s); hits += b[0] != 0; }
static void out(int s) { siglongjmp(jb, 7); }
struct rec { int n; char flex[]; };
int main(int argc, char **argv, char **envp) {
  int v[50], i, n = 0; char *w[] = { "pear", "fig", "apple", "kiwi" }; char line[100], *p, *q; struct tm tm, *t; time_t z = 86400; struct rec *r; FILE *f;
  for (i = 0; i < 50; i++) v[i] = i * 37 % 50;
  qsort(v, 50, sizeof *v, cmp); for (i = 0; i < 50; i++) if (v[i] != i) puts("sort");
  i = 17; printf("%d\n", (int)((int *)bsearch(&i, v, 50, sizeof *v, cmp) - v));
  qsort(w, 4, sizeof *w, cmps); printf("%s %s %s %s\n", w[0], w[1], w[2], w[3]);
  for (p = "Hello World 42"; *p; p++) n += isupper((unsigned char)*p) ? 1 : isdigit((unsigned char)*p) ? 10 : isspace((unsigned char)*p) ? 100 : 0;
  printf("%d\n", n);
  t = gmtime(&z); printf("%d %d\n", t->tm_year, t->tm_mday); tm = *t; strftime(line, sizeof line, "%Y-%m-%d", &tm); puts(line);
  strcpy(line, "a,b;c"); for (p = strtok(line, ",;"), n = 0; p; p = strtok(0, ",;")) n += *p; printf("%d\n", n);
  n = strtol("123xyz", &p, 10); printf("%d %d\n", n, *p); printf("%.2f\n", strtod("2.5e1q", &p)); printf("%s\n", strerror(ENOENT));
  for (n = 0, i = 0; i < argc; i++) n += strlen(argv[i]) > 0; printf("%d\n", n > 0); for (n = 0; envp[n]; n++) if (strlen(envp[n]) == 0) puts("env");
  setenv("C20VAR", "value", 1); p = getenv("C20VAR"); printf("%c%s %zu\n", p[0], p + 1, strlen(p));
  r = malloc(sizeof *r + 10); r->n = 10; for (i = 0; i < 10; i++) r->flex[i] = i; printf("%d\n", r->flex[9]); free(r);
  f = tmpfile(); fputs("one\ntwo\n", f); rewind(f); while (fgets(line, sizeof line, f)) printf("%s", line); fclose(f);
  p = mmap(0, 8192, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0); p[0] = 1; p[8191] = 2; printf("%d\n", p[0] + p[8191]); munmap(p, 8192);
  signal(SIGUSR1, on); raise(SIGUSR1); printf("%d\n", hits);
  signal(SIGUSR2, out); if ((i = sigsetjmp(jb, 1)) == 0) raise(SIGUSR2); printf("%d\n", i);
  fflush(stdout); if (fork() == 0) { char *c = malloc(10); strcpy(c, "child"); puts(c); fflush(stdout); _exit(3); } wait(&i); printf("%d\n", WEXITSTATUS(i));
  p = 0; n = asprintf(&p, "%d-%s", 5, "five"); printf("%d %s %c\n", n, p, p[2]); free(p);
  { char *l = 0; size_t cap = 0; f = fmemopen("line one\nline two\n", 18, "r"); while (getline(&l, &cap, f) > 0) printf("%zu %c\n", strlen(l), l[5]); free(l); fclose(f); }
  q = alloca(20); strcpy(q, "on the stack"); printf("%s\n", q); p = index(q, 't'); printf("%s %s\n", p, strstr(q, "st")); printf("%d\n", memchr(q, 'k', 12) == q + 11);
  p = calloc(0, 4); free(p); p = realloc(0, 5); p[4] = 1; p = realloc(p, 50); printf("%d\n", p[4]); free(p); free(0);
  p = memcpy(malloc(4), "abc", 4); printf("%s\n", p); free(p); posix_memalign((void **)&p, 64, 10); p[9] = 1; free(p);
  return 5;
}
