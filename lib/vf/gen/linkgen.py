"""Multi-module programs: functions and data of every linkable kind, referenced
across modules by call, by value, by address with addends, through tables and
through libc, with constructors, destructors, exit handlers and different ends."""

HEAD = '''#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdarg.h>
#include <stddef.h>
#include <setjmp.h>
#include <signal.h>
#include <errno.h>
#include <math.h>
#include <ctype.h>
#include <unistd.h>
#include <wchar.h>
#include <time.h>
#include <alloca.h>
struct S { int a; void *p; int (*f)(int); struct S *next; char tag[5]; };
struct T { double d; long l; int i; };
struct P { float x, y; };
extern char **environ;
'''


TAILS = ['#pragma pack(1)\n', '#pragma pack(2)\n', '#pragma pack(push, 1)\n', '#pragma pack(push)\n#pragma pack(1)\n', '#undef NULL\n#define NULL junk here\n', '#define int char\n#define struct union\n', '#define main nothing_\n',
         '#undef __x86_64__\n#undef __linux__\n', '#line 7 "else.c"\n', '#ifdef __TINYC__\n__asm__(".data\\n.byte 1");\n#endif\n', '#ifdef __TINYC__\n__asm__(".text");\n#endif\n', '#pragma push_macro("NULL")\n#undef NULL\n', '#define helper __COUNTER__\nenum { left_ = helper + helper };\n',
         'typedef struct T S_; struct only_here_ { char c; };\n', '#ifdef __TINYC__\n__asm__(".section .vfleft,\\"aw\\"\\n.byte 3");\n#endif\n', '#define printf(...) 0\n', '#pragma once\n', '/* the end */ // and more', '#define X_ 1 \\\n']


class Ent:
    def __init__(self, mod, idx, kind, name, **kw):
        self.mod, self.idx, self.kind, self.name = mod, idx, kind, name
        self.__dict__.update(kw)


KINDS = ['func', 'func', 'func', 'vfunc', 'sfunc', 'pfunc', 'int', 'll', 'dbl', 'str', 'arr', 'arr', 'struct', 'struct', 'ftab', 'ptab', 'bss', 'common', 'cdata', 'weakf', 'weakd', 'ldfunc', 'ptr', 'fnptr', 'bitf', 'libp', 'asmname']


class Gen:
    def __init__(self, r, nmods=None, size=6):
        self.r = r
        self.n = nmods or r.randrange(2, 6)
        self.nlib = r.randrange(1, self.n) if self.n > 1 else 0
        self.lib = set(range(self.n - self.nlib, self.n))
        self.ents = []
        for m in range(self.n):
            for k in range(r.randrange(3, size + 3)):
                kind = r.choice(KINDS)
                self.ents.append((m, k, kind))
        r.shuffle(self.ents)
        # entities of library modules come first, the others may use them
        self.ents.sort(key=lambda e: e[0] not in self.lib)
        self.ents = [Ent(m, g, kind, '%s_%d_%d' % (kind, m, g)) for g, (m, k, kind) in enumerate(self.ents)]
        self.text = {m: [] for m in range(self.n)}
        self.decls = {m: {} for m in range(self.n)}
        self.probe = {m: [] for m in range(self.n)}

    # what a module may refer to
    def usable(self, m, before=None, kinds=None):
        return [e for e in self.ents if (m not in self.lib or e.mod in self.lib) and (before is None or e.idx < before) and (kinds is None or e.kind in kinds)]

    def decl(self, m, e):
        if e.mod != m:
            self.decls[m][e.name] = e.proto
        return e.name

    def define(self, e):
        r, m, n = self.r, e.mod, e.name
        A, B = r.randrange(1, 1000), r.randrange(-5000, 5000)
        k = e.kind
        T = self.text[m]
        funcs = self.usable(m, e.idx, ('func', 'weakf', 'asmname'))
        if k in ('func', 'weakf', 'asmname'):
            e.proto = 'int %s(int);' % n
            if k == 'asmname':
                e.proto = 'int %s(int) __asm__("real.%s$x");' % (n, n)
                T.append(e.proto)
            body = 'return x * %d + %d;' % (A, B)
            c = r.randrange(8)
            if funcs and c < 3:
                body = 'return %s(x + %d) ^ %d;' % (self.decl(m, r.choice(funcs)), B % 100, A)
            elif funcs and c == 3:
                f = self.decl(m, r.choice(funcs))
                body = 'int (*p)(int) = x & 1 ? %s : helper; return p(x) + %d;' % (f, B)
            elif c == 4:
                body = 'static int calls; static int hist[4]; hist[calls & 3] += x; return ++calls * %d + hist[x & 3];' % A
            elif c == 5:
                body = 'static const struct { int k; const char *s; } t[] = { {1, "one"}, {%d, "%s"}, {3, ""} }; int h = 0; for (int i = 0; i < 3; i++) h = h * 31 + t[i].k + (int)strlen(t[i].s); return h + x;' % (A, 'z' * (A % 17))
            elif c == 6:
                ent = self.usable(m, e.idx, ('int', 'weakd'))
                if ent:
                    v = self.decl(m, r.choice(ent))
                    body = '%s += x; return %s - %d;' % (v, v, B)
            elif c == 7:
                body = 'switch (x & 7) { case 0: return %d; case 1: return helper(x); case 2: return counter++; case 5: return %d; default: return x - %d; }' % (A, B, A)
            if r.random() < .3:
                # a reference inside an expression with floating constants
                body = 'double d = x * %d.5 + 0.25; if (d < -1e9) return -1; ' % (A % 9) + body
            T.append('%sint %s(int x) { %s }' % ('__attribute__((weak)) ' if k == 'weakf' else '', n, body))
        elif k == 'vfunc':
            e.proto = 'long %s(int n, ...);' % n
            T.append('long %s(int n, ...) { va_list ap; long s = %d; va_start(ap, n); for (int i = 0; i < n; i++) s = s * 3 + (i %% 3 == 0 ? va_arg(ap, int) : i %% 3 == 1 ? (long)va_arg(ap, double) : (long)strlen(va_arg(ap, char *))); va_end(ap); return s; }' % (n, A))
        elif k == 'sfunc':
            e.proto = 'struct T %s(int, double);' % n
            T.append('struct T %s(int i, double d) { struct T t = { d * %d, i + %d, i }; return t; }' % (n, A, B))
        elif k == 'pfunc':
            e.proto = 'struct P %s(struct P, struct P);' % n
            T.append('struct P %s(struct P a, struct P b) { struct P c = { a.x + b.x * %d, a.y - b.y }; return c; }' % (n, A % 8))
        elif k == 'ldfunc':
            e.proto = 'long double %s(long double, unsigned long);' % n
            T.append('long double %s(long double a, unsigned long b) { return a * 2 + b + (unsigned long)(a + %d) + (float)b; }' % (n, A))
        elif k in ('int', 'weakd'):
            e.proto = 'extern int %s;' % n
            T.append('%sint %s = %d;' % ('__attribute__((weak)) ' if k == 'weakd' else '', n, B or 1))
        elif k == 'll':
            e.proto = 'extern unsigned long long %s;' % n
            T.append('unsigned long long %s = %dULL;' % (n, r.getrandbits(64) | 1))
        elif k == 'dbl':
            e.proto = 'extern const double %s;' % n
            T.append('const double %s = %d.125;' % (n, A))
        elif k == 'str':
            e.proto = 'extern char %s[];' % n
            T.append('char %s[] = "text %d \\x01\\377 end";' % (n, A))
        elif k == 'arr':
            e.n = r.choice([1, 3, 7, 40, 300])
            e.proto = 'extern int %s[%d];' % (n, e.n)
            T.append('%sint %s[%d] = { %s };' % (r.choice(['', '', '__attribute__((aligned(64))) ']), n, e.n, ', '.join(str(r.randrange(1, 99)) for _ in range(min(e.n, r.randrange(1, 9))))))
        elif k == 'cdata':
            e.proto = 'extern const short %s[4];' % n
            T.append('const short %s[4] = { %d, -%d, 3, %d };' % (n, A, A, B))
        elif k == 'bss':
            e.n = r.choice([16, 1000, 70000])
            e.proto = 'extern char %s[%d];' % (n, e.n)
            T.append('char %s[%d];' % (n, e.n))
        elif k == 'common':
            e.proto = 'extern long %s[5];' % n
            T.append('long %s[5];' % n)
        elif k == 'bitf':
            e.proto = 'extern struct { unsigned a : 5; int b : 12; unsigned long c : 40; } %s;' % n
            T.append('struct { unsigned a : 5; int b : 12; unsigned long c : 40; } %s = { %d, %d, %d };' % (n, A & 31, B % 2000, r.getrandbits(40)))
        elif k == 'struct':
            e.proto = 'extern struct S %s;' % n
            f = r.choice(funcs) if funcs else None
            o = self.usable(m, e.idx, ('arr', 'str', 'bss', 'common'))
            nx = self.usable(m, e.idx, ('struct',))
            p = '0'
            if o:
                x = r.choice(o)
                nm = self.decl(m, x)
                p = r.choice(['%s', '%s' if x.kind == 'arr' and x.n == 1 else '%s + 1', '(char *)%s + 3', '&%s[0]', '&%s']) % nm
            T.append('struct S %s = { %d, %s, %s, %s, "t%d" };' % (n, A, p, self.decl(m, f) if f else 'helper', '&' + self.decl(m, r.choice(nx)) if nx else '0', A))
        elif k == 'ftab':
            e.proto = 'extern int (*const %s[3])(int);' % n
            fs = [self.decl(m, r.choice(funcs)) if funcs and r.random() < .8 else 'helper' for _ in range(3)]
            T.append('int (*const %s[3])(int) = { %s };' % (n, ', '.join(fs)))
        elif k == 'ptab':
            e.proto = 'extern const char *%s[4];' % n
            T.append('const char *%s[4] = { "a%d", "shared", "shared" + 2, "%s" };' % (n, A, 'q' * (A % 30)))
        elif k == 'ptr':
            o = self.usable(m, e.idx, ('arr', 'common'))
            e.o = r.choice(o) if o else None
            e.proto = 'extern int *%s;' % n
            T.append('int *%s = %s;' % (n, '(int *)&%s[%d]' % (self.decl(m, e.o), r.randrange(0, min(2, e.o.n)) if e.o.kind == 'arr' else 3) if e.o else '&counter'))
        elif k == 'fnptr':
            e.proto = 'extern int (*%s)(int);' % n
            T.append('int (*%s)(int) = %s;' % (n, self.decl(m, r.choice(funcs)) if funcs else 'helper'))
        elif k == 'libp':
            e.proto = 'extern struct L%d { int (*c)(const char *, const char *); FILE **o; char ***e; double (*m)(double); int (*t)(int); } %s;' % (e.idx, n)
            T.append('struct L%d { int (*c)(const char *, const char *); FILE **o; char ***e; double (*m)(double); int (*t)(int); } %s = { strcmp, &%s, &environ, %s, %s };' % (e.idx, n, r.choice(['stdout', 'stderr']), r.choice(['sqrt', 'floor', 'fabs']), r.choice(['toupper', 'isdigit', 'abs'])))
        # its address as seen by its own module
        if k != 'asmname':
            T.append('const void *adr_%s(void) { return (const void *)&%s; }' % (n, n))

    def use(self, m, e):
        """A statement of module m printing something of e."""
        r, n, k = self.r, self.decl(m, e), e.kind
        x = r.randrange(-50, 50)
        tag = '"%s@%d ' % (e.name, m)
        if k != 'asmname' and r.random() < .3:
            self.decls[m]['adr_' + e.name] = 'const void *adr_%s(void);' % e.name
            return 'printf(%sadr %%d\\n", adr_%s() == (const void *)&%s);' % (tag, e.name, n)
        if k in ('func', 'weakf', 'asmname'):
            return r.choice(['printf(%s%%d\\n", %s(%d));', '{ int (*volatile p)(int) = %s0 + %s; printf("%%d\\n", p(%d)); }' if False else 'printf(%s%%d\\n", (*%s)(%d));', 'printf(%s%%d\\n", app(%s, %d));']) % (tag, n, x)
        if k == 'vfunc': return 'printf(%s%%ld\\n", %s(6, %d, 2.5, "abc", 7, -1e3, ""));' % (tag, n, x)
        if k == 'sfunc': return '{ struct T t = %s(%d, 1.5); printf(%s%%g %%ld %%d\\n", t.d, t.l, t.i); }' % (n, x, tag)
        if k == 'pfunc': return '{ struct P a = { 1, 2 }, b = { 3.5f, %d }; a = %s(a, b); printf(%s%%g %%g\\n", a.x, a.y); }' % (x, n, tag)
        if k == 'ldfunc': return 'printf(%s%%.3Lf\\n", %s(%d.75L, 0x%xUL));' % (tag, n, abs(x), r.getrandbits(60))
        if k in ('int', 'weakd'): return 'printf(%s%%d\\n", %s); %s %s= %d;' % (tag, n, n, r.choice(['+', '^', '-']), abs(x))
        if k == 'll': return 'printf(%s%%llx\\n", %s); %s = %s * 5 + 1;' % (tag, n, n, n)
        if k == 'dbl': return 'printf(%s%%g\\n", %s);' % (tag, n)
        if k == 'str': return 'printf(%s%%d %%s %%zu\\n", hash(%s, strlen(%s)), %s, strlen(%s)); %s[%d]++;' % (tag, n, n, n, n, n, r.randrange(5))
        if k == 'arr': return 'printf(%s%%d %%d %%zu\\n", %s[%d], hash(%s, sizeof %s), sizeof %s); %s[%d] += %d;' % (tag, n, r.randrange(e.n), n, n, n, n, r.randrange(e.n), x)
        if k == 'cdata': return 'printf(%s%%d %%d\\n", %s[1], hash(%s, sizeof %s));' % (tag, n, n, n)
        if k == 'bss': return 'printf(%s%%d %%d\\n", %s[%d], %s[%d]); %s[%d] = %d; memset(%s + 5, %d, 8);' % (tag, n, e.n - 1, n, r.randrange(4, 14), n, e.n - 1, x, n, abs(x))
        if k == 'common': return 'printf(%s%%ld %%ld\\n", %s[0], %s[4]); %s[4] += %d;' % (tag, n, n, n, x)
        if k == 'bitf': return 'printf(%s%%d %%d %%lx\\n", %s.a, %s.b, (unsigned long)%s.c); %s.b++;' % (tag, n, n, n, n)
        if k == 'struct': return '{ int c = 0; for (struct S *s = &%s; s; s = s->next) c = c * 7 + s->a + s->f(%d) + s->tag[1]; printf(%s%%d %%d %%s\\n", c, %s.p ? ((unsigned char *)%s.p)[0] : -1, %s.tag); }' % (n, x, tag, n, n, n)
        if k == 'ftab': return 'printf(%s%%d %%d\\n", %s[%d](%d), %s[0] == %s[1]);' % (tag, n, r.randrange(3), x, n, n)
        if k == 'ptab': return 'printf(%s%%s %%s %%s\\n", %s[0], %s[%d], %s[3]);' % (tag, n, n, r.randrange(1, 3), n)
        if k == 'ptr': return 'printf(%s%%d\\n", *%s); ++*%s;' % (tag, n, n)
        if k == 'fnptr': return 'printf(%s%%d\\n", %s(%d)); if (%d) %s = helper;' % (tag, n, x, r.random() < .1, n)
        if k == 'libp': return 'printf(%s%%d %%d %%d %%g %%d\\n", %s.c("a", "b") < 0, *%s.o == stdout, *%s.e == environ, %s.m(6.25), %s.t(\'5\')); ' % (tag, n, n, n, n, n) + 'printf("%%d %%d\\n", %s.c == strcmp, %s.o == &stdout);' % (n, n)

    SNIP = [
        '{ int a[9] = { 5, 3, 9, 1, 7, 2, 8, 0, 4 }; qsort(a, 9, sizeof *a, cmpi); int k = 7, *f = bsearch(&k, a, 9, sizeof *a, cmpi); printf("sort %d %d %d\\n", a[0], a[8], f ? (int)(f - a) : -1); }',
        '{ char b[64]; snprintf(b, sizeof b, "%5.2f|%-4d|%s", sin(0.5) + pow(2, 0.5), 42, "x"); printf("fmt %s\\n", b); }',
        '{ jmp_buf j; volatile int c = 0; int v = setjmp(j); if (v < 3) { c += v; longjmp(j, v + 1); } printf("jmp %d %d\\n", v, c); }',
        '{ signal(SIGUSR1, onsig); raise(SIGUSR1); printf("sig %d\\n", (int)got); }',
        '{ errno = 0; int rc = close(-1); printf("errno %d %d\\n", rc, errno == EBADF); }',
        '{ char *e = getenv("VF_ENV"); setenv("VF_NEW", "1", 1); printf("env %s %d %s\\n", e ? e : "-", environ != 0, getenv("VF_NEW")); }',
        '{ int n = 3 + (int)strlen(__func__); int v[n]; char *a = alloca(n * 10); for (int i = 0; i < n; i++) v[i] = i; memset(a, 1, n * 10); printf("vla %d %zu %d\\n", v[n - 1], sizeof v, a[n * 10 - 1]); }',
        '{ wchar_t w[] = L"h\\u00e9llo"; printf("wide %zu %d\\n", wcslen(w), (int)w[1]); }',
        '{ void *p = malloc(1000); p = realloc(p, 100000); memset(p, 7, 100000); printf("heap %d\\n", ((char *)p)[99999]); free(p); }',
        '{ unsigned long u = 0xfffffffffffffff0UL; double d = u; float f = u; long double l = u; printf("conv %g %g %Lg %lu %lu\\n", d, f, l, (unsigned long)(d / 2), (unsigned long)(l - 5)); }',
        '{ FILE *f = tmpfile(); if (f) { fprintf(f, "%d %s", 12, "ab"); rewind(f); int x; char s[8]; int k = fscanf(f, "%d %7s", &x, s); fclose(f); printf("file %d %d %s\\n", k, x, s); } }',
        '{ struct tm t = { 0 }; t.tm_year = 100; t.tm_mday = 1; char b[40]; strftime(b, sizeof b, "%Y-%m-%d", &t); printf("time %s\\n", b); }',
        '{ fprintf(stderr, "E: from %s\\n", __FILE__ + 0 * __LINE__ ? "stderr" : ""); }',
        '{ printf("static %d %d\\n", counter++, helper(3)); }',
        '{ struct pk { char c; long l; short s; int i[3]; } q; printf("size %d %d\\n", (int)sizeof q, (int)offsetof(struct pk, i)); }',
        '{ printf("count %d line %d\\n", __COUNTER__, __LINE__); }',
        '{ static const double t[] = { 1.5, -2.25, 1e300, 0x1p-1074 }; double s = 0; for (int i = 0; i < 4; i++) s += t[i] > 1e100 ? 1 : t[i]; printf("const %g %a\\n", s, t[3]); }',
        '{ int (*volatile pf)(const char *, ...) = printf; pf("indirect %s\\n", "printf"); }',
        '{ fflush(stdout); ssize_t k = write(1, "raw\\n", 4); printf("wrote %d\\n", (int)k); }',
    ]

    def program(self):
        r = self.r
        for m in range(self.n):
            self.text[m].append('static int counter = %d; static int tbl[3] = { %d };' % (r.randrange(100), r.randrange(100)))
            self.text[m].append('static int helper(int x) { return x * 3 + tbl[0] - %d; }' % r.randrange(100))
            self.text[m].append('static int app(int (*f)(int), int x) { return f(x); }')
            self.text[m].append('static int hash(const void *p, size_t n) { const unsigned char *c = p; unsigned h = 7; while (n--) h = h * 31 + *c++; return h; }')
            self.text[m].append('static int cmpi(const void *a, const void *b) { return *(const int *)a - *(const int *)b; }')
            self.text[m].append('static volatile sig_atomic_t got; static void onsig(int s) { got = s; }')
        for e in self.ents:
            self.define(e)
        osto = self.n - 1
        for m in range(self.n):
            T = self.text[m]
            if m == osto:
                T.append('char ord_[64]; int ordn_;')
            else:
                self.decls[m]['ord_'] = 'extern char ord_[64]; extern int ordn_;'
            if r.random() < .5:
                T.append('static void __attribute__((constructor)) ctor(void) { ord_[ordn_++] = \'a\' + %d; counter += 2; }' % m)
            if r.random() < .4:
                T.append('static void __attribute__((destructor)) dtor(void) { printf("dtor %d %%d\\n", counter); }' % m)
            us = self.usable(m)
            out = []
            if r.random() < .3:
                T.append('static void bye(void) { printf("atexit %d\\n"); }' % m)
                out.append('{ static int reg; if (!reg++) atexit(bye); }')
            for i in range(r.choice([0, 0, 1, 2, 3])):
                al = 1 << r.randrange(4, 13)
                T.append('%s al%d_%d[%d] __attribute__((aligned(%d)))%s;' % (r.choice(['static char', 'static char', 'char', 'static const char', 'static int', 'long']), m, i, r.choice([1, 3, 50, 900]), al, r.choice(['', '', ' = { %d }' % r.randrange(1, 99)])))
                out.append('printf("aligned %d %%d %%d\\n", (int)((unsigned long)al%d_%d & %d), *al%d_%d);' % (al, m, i, al - 1, m, i))
            for _ in range(r.randrange(4, 14)):
                if us and r.random() < .75:
                    out.append(self.use(m, r.choice(us)))
                else:
                    out.append(r.choice(self.SNIP))
            T.append('void probe_%d(void) {\n  %s\n}' % (m, '\n  '.join(out)))
        calls = list(range(self.n)) + [r.randrange(self.n) for _ in range(r.randrange(0, 3))]
        r.shuffle(calls)
        end, self.end = r.choice([
            ('return %d;' % r.choice([0, 1, 7, 42, 255, 256 + 9, -1]), 'return'),
            ('exit(%d);' % r.choice([0, 3, 77]), 'exit'),
            ('fflush(stdout); abort();', 'abort'), ('fflush(stdout); raise(SIGTERM);', 'sig'),
            ('fflush(stdout); *(volatile int *)8 = 1;', 'segv'),
            ('fflush(stdout); _exit(%d);' % r.choice([0, 5]), '_exit'), ('return 0;', 'return'), ('', 'fall')])
        main = HEAD + ''.join('void probe_%d(void);\n' % m for m in range(self.n)) + 'extern char ord_[64]; extern int ordn_;\n'
        main += 'int main(%s) {\n' % r.choice(['int argc, char **argv', 'int argc, char **argv, char **envp'])
        main += '  printf("argc %d", argc); for (int i = 1; i < argc; i++) printf(" [%s]", argv[i]); printf("%d\\n", argv[argc] == 0);\n'
        main += '  printf("ord %s\\n", ord_);\n'
        for c in calls:
            main += '  probe_%d();\n' % c
        main += '  ' + end + '\n}\n'
        out = {'main': main}
        # what a module leaves open ends with it
        tails = {m: r.choice(TAILS) if self.n > 1 and r.random() < .5 else '' for m in range(-1, self.n)}
        out['main'] += tails[-1]
        for m in range(self.n):
            out['m%d' % m] = HEAD + '\n'.join(sorted(self.decls[m].values())) + '\n' + '\n'.join(self.text[m]) + '\n' + tails[m]
        return out


def program(r, **kw):
    g = Gen(r, **kw)
    return g.program(), ['m%d' % m for m in sorted(g.lib)], g
