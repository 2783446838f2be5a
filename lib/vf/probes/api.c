/* executes a script of library API operations on numbered compiler states and prints a
   transcript; allocations of the library are counted through its own hook */
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdarg.h>
#include <unistd.h>
#include <dirent.h>
#include <setjmp.h>
#include <malloc.h>
#include "libtcc.h"

#define MAXS 64
static TCCState *S[MAXS];
static int cur = -1, dead[MAXS];
static long live, peak, total;

static void *hook(void *p, unsigned long n)
{
    void *r;
    if (n == 0) {
        if (p) live--;
        free(p);
        return NULL;
    }
    r = realloc(p, n);
    if (!r) abort();
    if (!p) {
        live++, total++;
        if (live > peak) peak = live;
        /* never zero by chance */
        memset(r, 0xA5, n);
    }
    return r;
}

static void say(const char *f, ...)
{
    va_list a;
    printf("@%d ", cur);
    va_start(a, f);
    vprintf(f, a);
    va_end(a);
    putchar('\n');
    fflush(stdout);
}

static void on_error(void *o, const char *m) { int c = cur; cur = (int)(long)o; say("msg %s", m); cur = c; }
static int host_add(int a) { return a + 1000; }
static void host_print(const char *s, long v) { say("prog %s %ld", s, v); }
static int host_var = 77;

static int nsym;
static char *syms[20000];
static void on_sym(void *c, const char *n, const void *v)
{
    (void)c; (void)v;
    if (nsym < 20000 && strncmp(n, "L.", 2)) syms[nsym++] = strdup(n);
}
static int cmp(const void *a, const void *b) { return strcmp(*(char **)a, *(char **)b); }

static unsigned fnv(const char *p, long *size)
{
    unsigned h = 2166136261u;
    int c;
    FILE *f = fopen(p, "rb");
    *size = -1;
    if (!f) return 0;
    *size = 0;
    while ((c = getc(f)) != EOF) h = (h ^ c) * 16777619u, ++*size;
    fclose(f);
    return h;
}

static char *load(const char *p)
{
    FILE *f = fopen(p, "rb");
    char *b = NULL;
    size_t n = 0, k;
    if (!f) { fprintf(stderr, "no %s\n", p); exit(90); }
    do {
        b = realloc(b, n + 65537);
        k = fread(b + n, 1, 65536, f);
        n += k;
    } while (k);
    b[n] = 0;
    fclose(f);
    return b;
}

static int nfd(void)
{
    int n = 0;
    DIR *d = opendir("/proc/self/fd");
    while (readdir(d)) n++;
    closedir(d);
    return n;
}

static int nmap(void)
{
    char l[600];
    int n = 0;
    FILE *f = fopen("/proc/self/maps", "r");
    while (fgets(l, sizeof l, f)) {
        char pr[8]; unsigned long ino;
        if (sscanf(l, "%*s %7s %*s %*s %lu", pr, &ino) == 2 && pr[2] == 'x' && ino == 0 && !strchr(l, '[')) n++;
    }
    fclose(f);
    return n;
}

int main(int argc, char **argv)
{
    static char line[1 << 16];
    FILE *f = fopen(argv[1], "r");
    const char *tccdir = argv[2];
    int fd0 = -1, map0 = nmap(), alive = 0;
    tcc_set_realloc(hook);
    if (!f) return 91;
    while (fgets(line, sizeof line, f)) {
        char *a[40], *p = line;
        int n = 0, i;
        line[strcspn(line, "\n")] = 0;
        while (p && n < 40) { a[n++] = p; p = strchr(p, '\t'); if (p) *p++ = 0; }
        if (n < 2) continue;
        if (fd0 < 0) fd0 = nfd();
        cur = i = atoi(a[1]);
#define IS(s) (!strcmp(a[0], s))
        if (dead[i] && !IS("del")) { say("skipped"); continue; }
        if (IS("new")) {
            S[i] = tcc_new();
            tcc_set_error_func(S[i], (void *)(long)i, on_error);
            tcc_set_lib_path(S[i], tccdir);
            alive++;
            say("new %d", S[i] != NULL);
        }
        else if (IS("opt")) say("opt %d", tcc_set_options(S[i], a[2]));
        else if (IS("out")) say("out %d", dead[i] = tcc_set_output_type(S[i], atoi(a[2])));
        else if (IS("def")) tcc_define_symbol(S[i], a[2], n > 3 ? a[3] : NULL), say("def");
        else if (IS("undef")) tcc_undefine_symbol(S[i], a[2]), say("undef");
        else if (IS("inc")) say("inc %d", tcc_add_include_path(S[i], a[2]));
        else if (IS("sysinc")) say("sysinc %d", tcc_add_sysinclude_path(S[i], a[2]));
        else if (IS("libpath")) say("libpath %d", tcc_add_library_path(S[i], a[2]));
        else if (IS("lib")) say("lib %d", tcc_add_library(S[i], a[2]));
        else if (IS("sym")) {
            tcc_add_symbol(S[i], "host_add", host_add);
            tcc_add_symbol(S[i], "host_print", host_print);
            tcc_add_symbol(S[i], "host_var", &host_var);
            say("sym");
        }
        else if (IS("str")) { char *t = load(a[2]); int r = tcc_compile_string(S[i], t); free(t); say("str %d", r); dead[i] = r != 0; }
        else if (IS("file")) say("file %d", dead[i] = tcc_add_file(S[i], a[2]));
        else if (IS("reloc")) say("reloc %d", dead[i] = tcc_relocate(S[i]));
        else if (IS("get")) {
            int (*fn)(int) = (int (*)(int))tcc_get_symbol(S[i], a[2]);
            if (!fn) say("get %s none", a[2]);
            else { int r = fn(atoi(a[3])); say("get %s %d", a[2], r); }
        }
        else if (IS("run")) {
            int r;
            say("run-begin");
            fflush(stdout);
            r = tcc_run(S[i], n - 2, a + 2);
            fflush(stdout);
            printf("\n");
            say("run-end %d", r);
        }
        else if (IS("outf")) {
            long sz; unsigned h; int r;
            remove(a[2]);
            r = tcc_output_file(S[i], a[2]);
            h = fnv(a[2], &sz);
            say("outf %d size %ld hash %08x", r, sz, h);
        }
        else if (IS("list")) {
            int k; unsigned h = 2166136261u;
            nsym = 0;
            tcc_list_symbols(S[i], NULL, on_sym);
            qsort(syms, nsym, sizeof *syms, cmp);
            for (k = 0; k < nsym; k++) {
                char *q = syms[k];
                for (; *q; q++) h = (h ^ (unsigned char)*q) * 16777619u;
                h = (h ^ 10) * 16777619u;
                if (nsym < 40) say("list %s", syms[k]);
                free(syms[k]);
            }
            say("list %d %08x", nsym, h);
        }
        else if (IS("del")) {
            tcc_delete(S[i]);
            S[i] = NULL;
            alive--;
            say("del");
            if (alive == 0) {
                int m = nmap(), d = nfd();
                cur = -1;
                printf("#rest live %ld fds %d maps %d\n", live, d - fd0, m - map0);
                live = 0;
            }
        }
        else { fprintf(stderr, "op %s?\n", a[0]); return 92; }
    }
    fclose(f);
    printf("#end peak %ld total %ld\n", peak, total);
    return 0;
}
