/* N threads, each executing its own script of library API operations on its own compiler
   states and writing its own transcript; a common log orders the beginnings and ends of all
   operations.   threads TCCDIR SEED LOG SCRIPT... (transcript: SCRIPT.out) */
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdarg.h>
#include <unistd.h>
#include <pthread.h>
#include <sched.h>
#include <time.h>
#include <signal.h>
#include "libtcc.h"

#define MAXS 64
static const char *tccdir;
static int nthreads;
static unsigned seed;
static pthread_barrier_t start;
static unsigned seq;
struct ev { unsigned char thread, begin; char op[6]; };
static struct ev *events;
#define MAXE 200000

typedef struct { TCCState *S[MAXS]; int dead[MAXS], cur, id; FILE *out; char *script; unsigned rnd; int nsym; char *syms[20000]; } T;
static __thread T *me;

static void event(int begin, const char *op)
{
    unsigned n = __atomic_fetch_add(&seq, 1, __ATOMIC_RELAXED);
    if (n >= MAXE) return;
    events[n].thread = me->id;
    events[n].begin = begin;
    strncpy(events[n].op, op, 5);
}

static void pause_(void)
{
    unsigned r = me->rnd = me->rnd * 1103515245u + 12345u;
    r >>= 16;
    if (seed == 0) return;
    switch (r % 6) {
    case 0: sched_yield(); break;
    case 1: usleep(r % 300); break;
    case 2: { volatile int k = r % 3000; while (k--); break; }
    case 3: if (r % 7 == 0) usleep(r % 3000); break;
    }
}

static void say(const char *f, ...)
{
    va_list a;
    fprintf(me->out, "@%d ", me->cur);
    va_start(a, f);
    vfprintf(me->out, f, a);
    va_end(a);
    putc('\n', me->out);
    fflush(me->out);
}

static void on_error(void *o, const char *m) { int c = me->cur; me->cur = (int)(long)o; say("msg %s", m); me->cur = c; }
static int host_add(int a) { pause_(); return a + 1000; }
static void host_print(const char *s, long v) { pause_(); say("prog %s %ld", s, v); }
static int host_var = 77;
static int on_bt(void *u, void *pc, const char *file, int line, const char *func, const char *msg) { say("bt %s:%d: %s: %s", file ? file : "-", line, func ? func : "-", msg ? msg : "-"); return 1; }
static void on_sym(void *c, const char *n, const void *v)
{
    (void)c; (void)v;
    if (me->nsym < 20000 && strncmp(n, "L.", 2)) me->syms[me->nsym++] = strdup(n);
}
static int cmp(const void *a, const void *b) { return strcmp(*(char **)a, *(char **)b); }

static unsigned fnv(const char *p, long *size)
{
    unsigned h = 2166136261u;
    int c;
    FILE *f = fopen(p, "rb");
    *size = -1;
    if (!f) return 0;
    *size = 0;
    while ((c = getc(f)) != EOF) h = (h ^ c) * 16777619u, ++*size;
    fclose(f);
    return h;
}

static char *load(const char *p)
{
    FILE *f = fopen(p, "rb");
    char *b = NULL;
    size_t n = 0, k;
    if (!f) { fprintf(stderr, "no %s\n", p); exit(90); }
    do {
        b = realloc(b, n + 65537);
        k = fread(b + n, 1, 65536, f);
        n += k;
    } while (k);
    b[n] = 0;
    fclose(f);
    return b;
}


static void *body(void *arg)
{
    T *t = me = arg;
    static __thread char line[1 << 14];
    FILE *f = fopen(t->script, "r");
    char name[1000];
    snprintf(name, sizeof name, "%s.out", t->script);
    t->out = fopen(name, "w");
    if (!f || !t->out) exit(91);
    t->rnd = seed * 77 + t->id * 13;
    pthread_barrier_wait(&start);
    while (fgets(line, sizeof line, f)) {
        char *a[40], *p = line;
        int n = 0, i;
        line[strcspn(line, "\n")] = 0;
        while (p && n < 40) { a[n++] = p; p = strchr(p, '\t'); if (p) *p++ = 0; }
        if (n < 2) continue;
        t->cur = i = atoi(a[1]);
        if (t->dead[i] && strcmp(a[0], "del")) { say("skipped"); continue; }
        pause_();
        event(1, a[0]);
#define IS(s) (!strcmp(a[0], s))
        if (IS("new")) {
            t->S[i] = tcc_new();
            tcc_set_error_func(t->S[i], (void *)(long)i, on_error);
            tcc_set_backtrace_func(t->S[i], NULL, on_bt);
            tcc_set_lib_path(t->S[i], tccdir);
            say("new %d", t->S[i] != NULL);
        }
        else if (IS("opt")) say("opt %d", tcc_set_options(t->S[i], a[2]));
        else if (IS("out")) say("out %d", t->dead[i] = tcc_set_output_type(t->S[i], atoi(a[2])));
        else if (IS("def")) tcc_define_symbol(t->S[i], a[2], n > 3 ? a[3] : NULL), say("def");
        else if (IS("undef")) tcc_undefine_symbol(t->S[i], a[2]), say("undef");
        else if (IS("inc")) say("inc %d", tcc_add_include_path(t->S[i], a[2]));
        else if (IS("sysinc")) say("sysinc %d", tcc_add_sysinclude_path(t->S[i], a[2]));
        else if (IS("libpath")) say("libpath %d", tcc_add_library_path(t->S[i], a[2]));
        else if (IS("lib")) say("lib %d", tcc_add_library(t->S[i], a[2]));
        else if (IS("sym")) {
            tcc_add_symbol(t->S[i], "host_add", host_add);
            tcc_add_symbol(t->S[i], "host_print", host_print);
            tcc_add_symbol(t->S[i], "host_var", &host_var);
            say("sym");
        }
        else if (IS("str")) { char *x = load(a[2]); int r = tcc_compile_string(t->S[i], x); free(x); say("str %d", r); t->dead[i] = r != 0; }
        else if (IS("file")) say("file %d", t->dead[i] = tcc_add_file(t->S[i], a[2]));
        else if (IS("reloc")) say("reloc %d", t->dead[i] = tcc_relocate(t->S[i]));
        else if (IS("get")) {
            int (*fn)(int) = (int (*)(int))tcc_get_symbol(t->S[i], a[2]);
            if (!fn) say("get %s none", a[2]);
            else { int r = fn(atoi(a[3])); say("get %s %d", a[2], r); }
        }
        else if (IS("run")) {
            int r;
            say("run-begin");
            r = tcc_run(t->S[i], n - 2, a + 2);
#ifdef __SANITIZE_THREAD__
            /* (this sanitizer blocks all other signals in handlers; compiled code left one by longjmp) */
            { sigset_t s; sigemptyset(&s); pthread_sigmask(SIG_SETMASK, &s, NULL); }
#endif
            say("run-end %d", r);
        }
        else if (IS("outf")) {
            long sz; unsigned h; int r;
            remove(a[2]);
            r = tcc_output_file(t->S[i], a[2]);
            h = fnv(a[2], &sz);
            say("outf %d size %ld hash %08x", r, sz, h);
        }
        else if (IS("list")) {
            int k; unsigned h = 2166136261u;
            t->nsym = 0;
            tcc_list_symbols(t->S[i], NULL, on_sym);
            qsort(t->syms, t->nsym, sizeof *t->syms, cmp);
            for (k = 0; k < t->nsym; k++) {
                char *q = t->syms[k];
                for (; *q; q++) h = (h ^ (unsigned char)*q) * 16777619u;
                h = (h ^ 10) * 16777619u;
                if (t->nsym < 40) say("list %s", t->syms[k]);
                free(t->syms[k]);
            }
            say("list %d %08x", t->nsym, h);
        }
        else if (IS("del")) {
            tcc_delete(t->S[i]);
            t->S[i] = NULL;
            say("del");
        }

        event(0, a[0]);
    }
    say("end");
    fclose(f);
    fclose(t->out);
    return NULL;
}

int main(int argc, char **argv)
{
    pthread_t th[16];
    static T ts[16];
    int k;
    FILE *l;
    tccdir = argv[1];
    seed = atoi(argv[2]);
    nthreads = argc - 4;
    events = calloc(MAXE, sizeof *events);
    pthread_barrier_init(&start, NULL, nthreads);
    for (k = 0; k < nthreads; k++) {
        ts[k].id = k;
        ts[k].script = argv[4 + k];
        pthread_create(&th[k], NULL, body, &ts[k]);
    }
    for (k = 0; k < nthreads; k++) pthread_join(th[k], NULL);
    if ((l = fopen(argv[3], "w"))) {
        for (k = 0; k < (int)seq && k < MAXE; k++) fprintf(l, "%d %d %s\n", events[k].thread, events[k].begin, events[k].op);
        fclose(l);
    }
    return 0;
}
