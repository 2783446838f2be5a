"""Programs that work on memory objects of all kinds, valid ones and ones with
one planted invalid access whose line is known."""

TYPES = ['char', 'unsigned char', 'short', 'int', 'unsigned', 'long', 'double', 'float', 'struct pt', 'ip', 'long double']
KINDS = ['local', 'local', 'static', 'global', 'slocal', 'malloc', 'malloc', 'calloc', 'realloc', 'alloca', 'vla', 'instruct', 'scalar', 'matrix', 'complit', 'ginit', 'param', 'memalign']

PRE = r'''#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <setjmp.h>
#include <alloca.h>
struct pt { int x, y; char t[4]; };
typedef int *ip;
static long sum; volatile int zero, one = 1; static jmp_buf jb;
static void say(const char *w, long v) { printf("%s %ld\n", w, v); fflush(stdout); }
static int *slot; static int slots[4] = { 5, 6, 7, 8 };
'''


class Mem:
    def __init__(self, rng):
        self.r = rng
        self.L = PRE.rstrip('\n').split('\n')
        self.n = 0
        self.plant = None
        self.heap = []

    def line(self, t):
        self.L.append(t)

    def here(self):
        return len(self.L) + 1

    def val(self, t, e):
        if t == 'struct pt':
            return '(struct pt){ %s, %s + 1, { 1, 2 } }' % (e, e)
        if t == 'ip':
            return '&slots[(%s) & 3]' % e
        return '(%s)((%s) & 63)' % (t, e)

    def num(self, t, lv):
        if t == 'struct pt':
            return '%s.%s' % (lv, self.r.choice(['x', 'y', 't[0]', 't[3]']))
        if t == 'ip':
            return '*%s' % lv
        return '(long)%s' % lv

    def make(self, kind, t, n, nm):
        """lines that define object nm of n elements; returns lines outside the function"""
        r = self.r
        out = []
        if kind == 'local':
            self.line('  %s %s[%d];' % (t, nm, n))
        elif kind == 'slocal':
            self.line('  static %s %s[%d];' % (t, nm, n))
        elif kind in ('malloc', 'memalign'):
            self.line('  %s *%s = %s;' % (t, nm, 'malloc(%d * sizeof(%s))' % (n, t) if kind == 'malloc' else 'memalign(%d, %d * sizeof(%s))' % (r.choice([16, 32, 64, 256]), n, t)))
        elif kind == 'calloc':
            self.line('  %s *%s = calloc(%d, sizeof(%s));' % (t, nm, n, t))
        elif kind == 'realloc':
            self.line('  %s *%s = malloc(%d * sizeof(%s)); %s = realloc(%s, %d * sizeof(%s));' % (t, nm, r.choice([1, n, 2 * n, 100 * n]), t, nm, nm, n, t))
        elif kind == 'alloca':
            self.line('  %s *%s = alloca(%d * sizeof(%s));' % (t, nm, n, t))
        elif kind == 'vla':
            self.line('  %s %s[%d + zero];' % (t, nm, n))
        elif kind == 'instruct':
            self.line('  struct { %s head[2], a[%d]; } w%s, *pw%s = &w%s; %s *%s = pw%s->a;' % (t, n, nm, nm, nm, t, nm, nm))
        elif kind == 'scalar':
            self.line('  %s s%s, *%s = &s%s;' % (t, nm, nm, nm))
        elif kind == 'matrix':
            self.line('  %s m%s[%d][%d], *%s = &m%s[0][0];' % (t, nm, n // 2 or 1, 2 if n > 1 else 1, nm, nm))
        elif kind == 'complit':
            self.line('  %s *%s = (%s[%d]){ 0 };' % (t, nm, t, n))
        return out

    def fill(self, t, n, nm):
        r = self.r
        k = self.n
        c = r.randrange(6)
        v = self.val
        if c == 0:
            self.line('  for (int i = 0; i < %d; i++) %s[i] = %s;' % (n, nm, v(t, 'i * %d + 1' % r.randrange(1, 9))))
        elif c == 1:
            self.line('  { %s *p = %s; while (p < %s + %d) { *p = %s; p++; } }' % (t, nm, nm, n, v(t, 'p - %s' % nm)))
        elif c == 2:
            self.line('  { %s *p = %s + %d; int i = 3; while (p != %s) *--p = %s; }' % (t, nm, n, nm, v(t, 'i++')))
        elif c == 3:
            self.line('  { int i = %d; do { i--; *(%s + i) = %s; } while (i); }' % (n, nm, v(t, 'i ^ 5')))
        elif c == 4:
            self.line('  { %s x = %s; for (int i = 0; i < %d; i++) memcpy(&%s[i], &x, sizeof x); }' % (t, v(t, '17'), n, nm))
        else:
            self.line('  { %s *p = %s; for (int i = 0; i < %d; i++) { *p++ = %s; } }' % (t, nm, n, v(t, 'i + 40')))

    def read(self, t, n, nm):
        r = self.r
        N = self.num
        c = r.randrange(7)
        if c == 0:
            self.line('  for (int i = 0; i < %d; i++) sum += %s;' % (n, N(t, '%s[i]' % nm)))
        elif c == 1:
            self.line('  { %s *p, *e = %s + %d; for (p = %s; p < e; p++) sum += %s * 3; }' % (t, nm, n, nm, N(t, '(*p)')))
        elif c == 2:
            self.line('  { %s c[%d]; memcpy(c, %s, sizeof c); sum ^= %s; }' % (t, n, nm, N(t, 'c[%d]' % (n - 1))))
        elif c == 3:
            self.line('  { %s c[%d]; for (int i = 0; i < %d; i++) c[i] = %s[i]; sum += memcmp(c, c, sizeof c); sum += %s; }' % (t, n, n, nm, N(t, 'c[0]')))
        elif c == 4:
            self.line('  sum += walk_%s(%s, %d);' % (self.tag(t), nm, n))
        elif c == 5:
            self.line('  { %s *q = malloc(%d * sizeof *q); memmove(q, %s, %d * sizeof *q); sum += %s; free(q); }' % (t, n, nm, n, N(t, 'q[%d]' % (n // 2))))
        else:
            self.line('  { %s *p = %s + %d; for (int i = 1; i <= %d; i++) sum -= %s; }' % (t, nm, n, n, N(t, 'p[-i]')))

    def tag(self, t):
        return t.replace(' ', '_').replace('*', 'p')

    def strings(self):
        """valid work with strings"""
        r = self.r
        c = r.randrange(9)
        w = ''.join(r.choice('abcdefgh ') for i in range(r.choice([0, 1, 3, 8, 15, 40])))
        n = len(w) + 1
        if c == 0:
            self.line('  { char b[%d]; strcpy(b, "%s"); sum += strlen(b); }' % (n, w))
        elif c == 1:
            self.line('  { char b[%d]; strcpy(b, "%s"); strcat(b, "xy"); sum += strlen(b) + b[%d]; }' % (n + 2, w, n))
        elif c == 2:
            self.line('  { char b[%d]; strncpy(b, "%s", sizeof b); sum += b[%d]; }' % (r.randrange(1, n + 6), w, 0))
        elif c == 3:
            self.line('  { char *b = strdup("%s"); sum += strlen(b) * 7 + strcmp(b, "%s"); free(b); }' % (w, w))
        elif c == 4:
            self.line('  { const char *s = "%sQ%s", *q = strchr(s, \'Q\'); sum += q - s; sum += strrchr(s, \'Q\') - q; }' % (w, w))
        elif c == 5:
            self.line('  { char b[%d]; memset(b, \'z\', sizeof b); b[%d] = 0; sum += strlen(b); sum += strncmp(b, "zzz", 2) != 0; }' % (n, n - 1))
        elif c == 6:
            self.line('  { char b[100]; sprintf(b, "%%s-%%d", "%s", 42); sum += strlen(b); }' % w)
        elif c == 7:
            self.line('  { char b[%d] = "%s"; strncat(b, "pqrs", 2); sum += strlen(b) + b[%d]; }' % (n + 2, w, n))
        else:
            self.line('  { static const char *const tab[] = { "%s", "one", "two" }; for (int i = 0; i < 3; i++) { const char *s = tab[i]; while (*s) sum += *s++; } }' % w)

    def misc(self):
        """valid things around the checker's book-keeping"""
        r = self.r
        c = r.randrange(13)
        k = self.n
        if c == 0:
            self.line('  { struct node { struct node *next; int v; } *h = 0, *x; for (int i = 0; i < %d; i++) { x = malloc(sizeof *x); x->v = i; x->next = h; h = x; } while (h) { sum += h->v; x = h->next; free(h); h = x; } }' % r.choice([1, 5, 60]))
        elif c == 1:
            self.line('  if (setjmp(jb) == 0) { char tmp[30]; strcpy(tmp, "jump"); sum += strlen(tmp); longjmp(jb, 1); } else sum += 2;')
        elif c == 2:
            self.line('  for (int i = 0; i < %d; i++) { char t[i + 3]; memset(t, i, i + 3); sum += t[i + 2]; if (i == 5) continue; if (i == 9) break; }' % r.choice([1, 4, 12]))
        elif c == 3:
            self.line('  sum += rec(%d);' % r.choice([0, 3, 30, 300]))
        elif c == 4:
            self.line('  { struct pt a = { 1, 2, "ab" }, b, *p = &b; b = a; *p = mk(b, 4); sum += p->y + strlen(b.t); }')
        elif c == 5:
            self.line('  { char *p = 0; for (int i = 1; i < %d; i++) { p = realloc(p, i * 10); p[i * 10 - 1] = i; } if (p) sum += p[9]; free(p); }' % r.choice([1, 2, 20]))
        elif c == 6:
            self.line('  { int a[4] = { 1, 2, 3, 4 }; int *p = a + 4, *q = a; sum += p - q; sum += p > q; if (p != &a[4]) sum += 1000; }')
        elif c == 7:
            self.line('  { int (*f[2])(int) = { rec, rec }; sum += f[one](4); }')
        elif c == 8:
            f = r.choice(['(long)rd2(%d).a * 2 + (long)(rd2(3).b * 4)', '(long)(rd2(%d).b * 2)', 'rl2(%d).a + rl2(4).b', '(long)(rld(%d) * 4)', '(long)(rdb(%d) * 8)', '(long)(rfl(%d) * 4)', '*(int *)rpt(%d)',
                          '(long)(rd2(%d).a * rdb(2) + rfl(1) * rld(2))'])
            self.line('  sum += %s;' % (f % r.randrange(0, 40)))
        elif c in (9, 10):
            self.line('  { volatile int w = setjmp(jb); if (w == 0) hop(%d, %d); sum += w; }' % (r.randrange(0, 4), r.choice([4, 9, 20])))
            self.line('  sum += lay(%d);' % r.choice([0, 1, 3, 6]))
        elif c == 11:
            self.line('  sum += lay(%d);' % r.choice([0, 1, 4]))
        else:
            self.line('  { unsigned char s[16]; union { int i; char c[4]; } u; u.i = 0x01020304; for (int i = 0; i < 4; i++) s[i] = u.c[i]; sum += s[3]; }')

    def bad(self, t, n, nm, kind, size):
        """the planted access; the object has n elements"""
        r = self.r
        v = self.val
        N = self.num
        heap = kind in ('malloc', 'calloc', 'realloc', 'memalign')
        opts = ['w_end', 'r_end', 'r_far', 'w_neg', 'r_neg', 'ptr_end', 'mid', 'loop', 'walk', 'down', 'callee', 'inc', 'memset', 'memcpy_d', 'memcpy_s', 'memmove', 'memcmp', 'var', 'addr', 'inv', 'inv']
        if heap:
            opts += ['freed_r', 'freed_w', 'freed_fn', 'freed2', 'freed_mid', 'freed_r']
        if t == 'char':
            opts += ['strlen', 'strcpy', 'strcat', 'strncpy', 'strdup', 'strcpy_s', 'strcmp', 'strchr', 'strncat', 'strrchr', 'strncmp'] * 2
        if t == 'struct pt':
            opts += ['field', 'field_a']
        if kind == 'matrix' and n > 1:
            opts += ['row', 'row']
        if kind == 'instruct':
            # the member in front belongs to the same object
            opts = [x for x in opts if x not in ('w_neg', 'r_neg', 'down')]
        o = r.choice(opts)
        self.how = o
        ln = None
        fn = None
        if o == 'w_end':
            s = '%s[%d] = %s;' % (nm, n, v(t, '3'))
        elif o == 'r_end':
            s = 'sum += %s;' % N(t, '%s[%d]' % (nm, n))
        elif o == 'r_far':
            s = 'sum += %s;' % N(t, '%s[%d]' % (nm, n + r.choice([1, 7, 1000, 100000])))
        elif o == 'w_neg':
            s = '%s[-1]%s = %s;' % (nm, '.y' if t == 'struct pt' else '', '3' if t == 'struct pt' else v(t, '3'))
        elif o == 'r_neg':
            s = 'sum += %s;' % N(t, '%s[-%d]' % (nm, r.choice([1, 2, 50])))
        elif o == 'ptr_end':
            self.line('  %s *e = %s + %d;' % (t, nm, n))
            s = r.choice(['*e = %s;' % v(t, '1'), 'sum += %s;' % N(t, '(*e)'), 'sum += %s;' % N(t, 'e[0]')])
        elif o == 'mid':
            self.line('  %s *e = %s + %d;' % (t, nm, n // 2))
            s = 'e[%d] = %s;' % (n - n // 2, v(t, '1'))
        elif o == 'loop':
            s = 'for (int i = 0; i <= %d; i++) %s[i] = %s;' % (n, nm, v(t, 'i'))
        elif o == 'walk':
            self.line('  %s *e = %s;' % (t, nm))
            s = 'for (int i = 0; i <= %d; i++) *e++ = %s;' % (n, v(t, 'i'))
        elif o == 'down':
            self.line('  %s *e = %s + %d;' % (t, nm, n))
            s = 'for (int i = 0; i <= %d; i++) sum += %s;' % (n, N(t, '(*--e)'))
        elif o == 'callee':
            s = 'sum += walk_%s(%s, %d);' % (self.tag(t), nm, n + 1)
            ln, fn = self.walks[t], 'walk_' + self.tag(t)
        elif o == 'inc':
            if t in ('struct pt', 'ip'):
                s = '%s[%d] = %s[0];' % (nm, n, nm)
            else:
                s = r.choice(['%s[%d]++;', '%s[%d] += 2;', '--%s[%d];']) % (nm, n)
        elif o == 'memset':
            s = 'memset(%s, 1, %d * sizeof(%s) + 1);' % (nm, n, t)
        elif o == 'memcpy_d':
            self.line('  static char big[%d];' % (n * 20 + 64))
            s = 'memcpy(%s, big, %d * sizeof(%s) + 1);' % (nm, n, t)
        elif o == 'memcpy_s':
            self.line('  static char big[%d];' % (n * 20 + 64))
            s = 'memcpy(big, %s, %d * sizeof(%s) + 1);' % (nm, n, t)
        elif o == 'memmove':
            s = 'memmove(%s + 1, %s, %d * sizeof(%s));' % (nm, nm, n, t)
        elif o == 'memcmp':
            self.line('  static char big[%d];' % (n * 20 + 64))
            self.line('  memcpy(big, %s, %d * sizeof(%s));' % (nm, n, t))
            s = 'sum += memcmp(big, %s, %d * sizeof(%s) + 1);' % (nm, n, t)
        elif o == 'var':
            self.line('  int at = %d + zero;' % n)
            s = '%s[at] = %s;' % (nm, v(t, 'at'))
        elif o == 'addr':
            self.line('  %s *e;' % t)
            s = 'e = &%s[%d]; *e = %s;' % (nm, n, v(t, '2'))
        elif o in ('freed_r', 'freed_w', 'freed_fn', 'freed2', 'freed_mid'):
            self.line('  free(%s);' % nm)
            if r.random() < .4 and o != 'freed2':
                # the block may not be given to another object in the meantime
                self.line('  { char *q = malloc(100000); q[5] = 1; sum += q[5]; free(q); }')
            s = {'freed_r': 'sum += %s;' % N(t, '%s[%d]' % (nm, r.randrange(n))), 'freed_w': '%s[0] = %s;' % (nm, v(t, '1')), 'freed_fn': 'memset(%s, 0, 1);' % nm,
                 'freed2': 'free(%s);' % nm, 'freed_mid': '*(%s + %d) = %s;' % (nm, n - 1, v(t, '1'))}[o]
        elif o == 'inv':
            bad = r.choice(['%s + %d' % (nm, n + r.choice([1, 5, 1000])), '&%s[%d]' % (nm, n + 2)] + (['%s - 1' % nm, '&%s[-3]' % nm] if kind != 'instruct' else []))
            self.line('  static char big[64];')
            s = r.choice(['memset(%s, 0, 1);', 'memcpy(%s, big, 1);', 'memcpy(big, %s, 1);', 'memmove(big, %s, 1);', '*(%s) = %s[0];' % ('%s', nm)]) % bad
        elif o == 'stale':
            self.line('  %s *old = %s; %s = realloc(%s, 300000); if (old == %s) { free(%s); }' % (t, nm, nm, nm, nm, nm))
            s = 'old[0] = %s;' % v(t, '1')
        elif o in ('strlen', 'strdup', 'strcpy_s', 'strcmp', 'strchr', 'strrchr', 'strncmp'):
            # not terminated
            self.line('  memset(%s, \'u\', %d);' % (nm, n))
            self.line('  static char big[%d]; memset(big, \'u\', %d);' % (n + 2000, n + 1999))
            s = {'strlen': 'sum += strlen(%s);', 'strdup': 'sum += *strdup(%s);', 'strcpy_s': 'strcpy(big, %s);', 'strcmp': 'sum += strcmp(%s, big);', 'strchr': 'sum += !strchr(%s, \'v\');',
                 'strrchr': 'sum += !strrchr(%s, \'v\');', 'strncmp': 'sum += strncmp(%%s, big, %d);' % (n + 1)}[o] % nm
        elif o == 'strcpy':
            s = 'strcpy(%s, "%s");' % (nm, 'x' * n)
        elif o == 'strcat':
            self.line('  memset(%s, 0, %d);' % (nm, n))
            self.line('  memset(%s, \'y\', %d);' % (nm, n - 1))
            s = 'strcat(%s, "x");' % nm
        elif o == 'strncat':
            self.line('  memset(%s, 0, %d);' % (nm, n))
            self.line('  memset(%s, \'y\', %d);' % (nm, n - 1))
            s = 'strncat(%s, "xyz", 2);' % nm
        elif o == 'strncpy':
            s = 'strncpy(%s, "a", %d);' % (nm, n + 1)
        elif o == 'field':
            self.line('  struct pt *e = %s + %d;' % (nm, n))
            s = r.choice(['e->y = 3;', 'sum += e->x;', 'e->t[1] = 2;', '(*e).t[3] = 1;'])
        elif o == 'field_a':
            s = r.choice(['%s[%d].y = 3;', 'sum += %s[%d].t[2];', 'sum += (&%s[%d])->x;']) % (nm, n)
        elif o == 'row':
            s = 'm%s[%d][0] = %s;' % (nm, n // 2, v(t, '1'))
        self.line('  say("before", sum);')
        w = r.randrange(5)
        if 'e++' in s or 'int i' in s:
            w = 0
        s = ['%s', 'if (one) { %s }', 'while (one) { %s break; }', 'do { %s } while (zero);', '{ int k = 1; switch (k) { case 1: %s } }'][w] % s
        self.plant = (ln or self.here(), fn or self.fn)
        self.line('  ' + s)
        self.line('  say("after", sum);')


def program(rng, plant):
    """returns (text, plant or None, kind, how)"""
    m = Mem(rng)
    m.line('#include <malloc.h>')
    m.line('static int rec(int n) { char b[8]; b[n & 7] = n; return n ? rec(n - 1) + b[n & 7] : 1; }')
    m.line('static struct pt mk(struct pt a, int n) { a.x += n; a.t[1] = n; return a; }')
    m.line('struct d2 { double a, b; }; struct l2 { long a, b; }; struct dl { double a; long b; }; struct ld { long a; double b; };')
    m.line('static struct d2 rd2(int n) { struct d2 r; double t[3]; t[n % 3] = n + .5; r.a = t[n % 3]; r.b = n * 2.; return r; }')
    m.line('static struct l2 rl2(int n) { char t[9]; t[8] = n; return (struct l2){ t[8], n * 3L }; }')
    m.line('static long double rld(int n) { int t[2] = { n, n + 1 }; return t[1] * 1.25L; }')
    m.line('static double rdb(int n) { char t[n + 2]; t[n + 1] = n; return t[n + 1] + .25; }')
    m.line('static float rfl(int n) { struct pt t = { n, n, "ab" }; return t.y + .5f; }')
    m.line('static void *rpt(int n) { static int v[5]; int t[3] = { n, n, n }; v[n % 5] = t[2]; return v + n % 5; }')
    m.line('static void hop(int n, int k) { char b[n + 3]; int c[5]; memset(b, n, n + 3); c[n % 5] = k; if (n >= k) longjmp(jb, n + c[n % 5]); if (n & 1) hop(n + 1, k); else { char d[7]; strcpy(d, "abcdef"); hop(n + 1 + (d[3] == 0), k); } }')
    m.line('static long lay(int n) { char big[700]; long s = 0; int i; for (i = 0; i < 700; i++) big[i] = i + n; for (i = 0; i < 700; i++) s += big[i]; return n ? s + lay(n - 1) : s; }')
    m.walks = {}
    types = rng.sample(TYPES, 4)
    if rng.random() < .5:
        types[0] = 'char'
        types = list(dict.fromkeys(types))
    for t in types:
        m.line('static long walk_%s(%s *p, int n) { long s = 0;' % (m.tag(t), t))
        m.walks[t] = m.here()
        m.line('  for (int i = 0; i < n; i++) s += %s;' % m.num(t, 'p[i]'))
        m.line('  return s;')
        m.line('}')
    nf = rng.choice([1, 2, 4])
    where = rng.randrange(nf) if plant else -1
    info = None
    for f in range(nf):
        m.fn = 'f%d' % f
        objs = []
        for k in range(rng.choice([1, 2, 3])):
            t = rng.choice(types)
            n = rng.choice([1, 2, 3, 7, 16, 33, 100])
            kind = rng.choice(KINDS)
            if kind == 'complit' and k == 0:
                kind = 'local'
            if kind == 'scalar':
                n = 1
            if kind == 'matrix':
                n = n // 2 * 2 or 1
            objs.append((t, n, kind, 'o%d_%d' % (f, k)))
        for t, n, kind, nm in objs:
            if kind in ('static', 'global'):
                m.line('%s%s %s[%d];' % ('static ' if kind == 'static' else '', t, nm, n))
            elif kind == 'ginit':
                m.line('%s %s[%d] = { 0 };' % (t, nm, n))
        params = ', '.join('%s *%s' % (t, nm) for t, n, kind, nm in objs if kind == 'param')
        m.line('static void f%d(%s)' % (f, params or 'void'))
        m.line('{')
        dead = []
        for i, (t, n, kind, nm) in enumerate(objs):
            m.n += 1
            m.make(kind, t, n, nm)
        for i, (t, n, kind, nm) in enumerate(objs):
            m.n += 1
            m.fill(t, n, nm)
        for i in range(rng.choice([1, 3, 6])):
            m.n += 1
            t, n, kind, nm = rng.choice(objs)
            c = rng.random()
            if c < .5:
                m.read(t, n, nm)
            elif c < .75:
                m.strings()
            elif c < .9:
                m.misc()
            else:
                m.fill(t, n, nm)
        if f == where:
            t, n, kind, nm = rng.choice([x for x in objs if x[2] != 'complit'])
            info = (kind, t, n)
            m.bad(t, n, nm, kind, 0)
            if m.how.startswith('freed') or m.how == 'stale':
                dead.append(nm)
        for t, n, kind, nm in objs:
            m.n += 1
            if nm not in dead:
                m.read(t, n, nm)
        m.line('  say("f%d", sum);' % f)
        for t, n, kind, nm in objs:
            if kind in ('malloc', 'calloc', 'realloc', 'memalign') and nm not in dead:
                m.line('  free(%s);' % nm)
        m.line('}')
        # the call
        m.line('static void call%d(void)' % f)
        m.line('{')
        args = []
        for t, n, kind, nm in objs:
            if kind == 'param':
                m.line('  %s %s[%d];' % (t, nm, n))
                args.append(nm)
        for q in range(rng.choice([1, 1, 3])):
            m.line('  f%d(%s);' % (f, ', '.join(args)))
        m.line('}')
    m.line('int main(void)')
    m.line('{')
    m.line('  slot = slots;')
    for f in range(nf):
        m.line('  call%d();' % f)
    m.line('  return sum & 63;')
    m.line('}')
    return '\n'.join(m.L) + '\n', m.plant, info, getattr(m, 'how', None)
