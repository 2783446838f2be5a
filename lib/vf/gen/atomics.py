"""Programs using atomic operations: sequential value programs (compared with the
system compiler) and concurrent programs that record a history for hist.cpp."""

INTS = [('_Bool', 1), ('char', 1), ('signed char', 1), ('unsigned char', 1), ('short', 2), ('unsigned short', 2),
        ('int', 4), ('unsigned', 4), ('long', 8), ('unsigned long', 8), ('long long', 8), ('unsigned long long', 8)]
OTHERS = [('float', 4), ('double', 8), ('ip', 8), ('struct s1', 1), ('struct s2', 2), ('struct s4', 4), ('struct s8', 8),
          ('struct sf', 8), ('enum en', 4)]
LO = ['memory_order_relaxed', 'memory_order_consume', 'memory_order_acquire', 'memory_order_seq_cst']
SO = ['memory_order_relaxed', 'memory_order_release', 'memory_order_seq_cst']
RO = ['memory_order_relaxed', 'memory_order_acquire', 'memory_order_release', 'memory_order_acq_rel', 'memory_order_seq_cst']
CO = [('memory_order_relaxed', 'memory_order_relaxed'), ('memory_order_acquire', 'memory_order_relaxed'), ('memory_order_acq_rel', 'memory_order_acquire'),
      ('memory_order_release', 'memory_order_relaxed'), ('memory_order_seq_cst', 'memory_order_seq_cst'), ('memory_order_seq_cst', 'memory_order_relaxed')]
G = {'memory_order_' + a: '__ATOMIC_' + a.upper() for a in ('relaxed', 'consume', 'acquire', 'release', 'acq_rel', 'seq_cst')}

PRE = r'''#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdint.h>
#include <stdbool.h>
#include <stdatomic.h>
struct s1 { signed char a; };
struct s2 { unsigned char a, b; };
struct s4 { short a; unsigned short b; };
struct s8 { int a; unsigned b; };
struct sf { float a, b; };
typedef int *ip;
enum en { E0, E1, E2 = 77, EN = -3 };
static int arr[64];
static unsigned long cnt;
static volatile int two = 2;
static void *same(void *p) { return p; }
static unsigned long tick(unsigned long v) { cnt += v; return v; }
static double mix(int a, double b, long c, float d, int e, int f, int g, int h) { return a + b * c - d + e * f - g + h; }
static void pi(const char *w, long long v) { printf("%s=%lld\n", w, v); }
static void pm(const char *w, void *p, int n) { unsigned char *c = p; int i; printf("%s=", w); for (i = 0; i < n; i++) printf("%02x", c[i]); printf("\n"); }
'''

VALS = ['0', '1', '-1', '2', '127', '128', '255', '256', '32767', '32768', '65535', '65536', '0x7fffffff', '0x80000000u', '0xffffffffu',
        '0x123456789abcdefLL', '-0x7fffffffffffffffLL', '0x8000000000000000ull', '0x5555aaaa5555aaaaLL', '-42', '77']


def lit(rng, t):
    if t == '_Bool':
        return rng.choice(['0', '1', '2', '256', '-1', '0x100000000LL'])
    if t == 'float':
        return rng.choice(['0.0f', '1.5f', '-2.25f', '3e30f', '7', '1e-40f', '0.1'])
    if t == 'double':
        return rng.choice(['0.0', '1.5', '-2.25', '3e300', '7', '0.1', '4.9e-324'])
    if t == 'ip':
        return 'arr + %d' % rng.randrange(60)
    if t == 'enum en':
        return rng.choice(['E0', 'E1', 'E2', 'EN', '5'])
    if t.startswith('struct'):
        a, b = rng.randrange(-100, 100), rng.randrange(0, 100)
        return '((%s){%d%s})' % (t, a, '' if t == 'struct s1' else ', %d' % b)
    if rng.random() < .6:
        return rng.choice(VALS)
    return '%dLL' % rng.randrange(-(1 << 62), 1 << 62)


def show(rng, t, w, e):
    """print a value expression of type t"""
    if t.startswith('struct'):
        return '{ %s sv_ = %s; pm("%s", &sv_, sizeof sv_); }' % (t, e, w)
    if t in ('float', 'double'):
        return 'printf("%s=%%a\\n", (double)(%s));' % (w, e)
    if t == 'ip':
        return 'pi("%s", (%s) - arr);' % (w, e)
    k = rng.randrange(9)
    if k == 6:
        return 'pi("%s", two * 3 + (two << 4) %% 7 + (%s) %% 5 + two * two);' % (w, e)
    if k == 7:
        return '{ long z_[3] = { two, two + 1, two + 2 }; pi("%s", z_[two - 1] * 1000 + (arr[two] - (%s)) %% 100 + z_[two]); }' % (w, e)
    if k == 8:
        return 'pi("%s", arr[5] == two || (%s) != 1);' % (w, e)
    if k == 0:
        return 'pi("%s", (%s) + 1);' % (w, e)
    if k == 1:
        return 'pi("%s", (%s) < 3);' % (w, e)
    if k == 2:
        return 'pi("%s", tick(%s) & 0xffff);' % (w, e)
    if k == 3:
        return 'printf("%s=%%g\\n", (double)(%s));' % (w, e)
    if k == 4:
        return 'pi("%s", (long)(%s) / -3);' % (w, e)
    return 'pi("%s", %s);' % (w, e)


def seq(rng, nblocks=14, nops=12):
    o = [PRE]
    fn = []
    for bi in range(nblocks):
        isint = rng.random() < .72
        t, size = rng.choice(INTS if isint else OTHERS)
        arith = isint and t != '_Bool'
        atomic = '_Atomic(%s)' % t if rng.random() < .7 else None
        at = atomic or t                      # the builtins also take plain objects
        place = rng.choice(['global', 'local', 'array', 'member', 'heap', 'static'])
        L = []
        decl = 'struct { %s g0[3]; %s x; %s g1[3]; } ' % (t, at, t)
        g = ''
        if place == 'global':
            g = 'static %sG%d;' % (decl, bi)
            acc = 'G%d.x' % bi
            base = '&G%d' % bi
        elif place == 'static':
            L.append('static %sS;' % decl)
            acc, base = 'S.x', '&S'
        elif place == 'array':
            g = '%sA%d[5];' % (decl, bi)
            acc, base = 'A%d[%d].x' % (bi, rng.randrange(1, 4)), None
            base = '&' + acc[:-2]
        elif place == 'heap':
            L.append('%s*H = calloc(2, sizeof *H);' % decl)
            acc, base = 'H->x', 'H'
        elif place == 'member':
            L.append('struct { char c; %sm; char d; } W; memset(&W, 0, sizeof W);' % decl)
            acc, base = 'W.m.x', '&W.m'
        else:
            L.append('%sl; memset(&l, 0, sizeof l);' % decl)
            acc, base = 'l.x', '&l'
        names = rng.sample(['ptr', 'tmp', 'val', 'v', 'res', 'ret', 'cmp', 'atom', 'expected', 'obj', 'order', 'xchg'], 4)
        V, E_, R, P = names
        L.append('%s %s = %s, %s, %s;' % (t, V, lit(rng, t), E_, R))
        L.append('%s *%s = &%s;' % (at, P, acc))
        L.append('memset(%s, 0x5a, sizeof *(%s)); memset(&%s, 0, sizeof %s); memset(&%s, 0, sizeof %s);' % (base, base, E_, E_, R, R))
        L.append('atomic_init(%s, %s);' % (P, lit(rng, t)))

        def ob():
            return rng.choice([P, P, '&' + acc, '&(*%s)' % P, '(%s ? %s : 0)' % (P, P), '%s + 0' % P, '(cnt++, %s)' % P])

        def ad(n):
            return rng.choice(['&' + n] * 4 + ['(&%s + two - 2)' % n, '&(&%s - 2)[two]' % n, '(%s *)same(&%s)' % (t, n), '&*(two ? &%s : 0)' % n, '(&%s - tick(2) + two)' % n])

        def va():
            k = rng.randrange(5)
            if k == 0:
                return V
            if k == 1 and arith:
                return '%s + %s' % (V, lit(rng, t))
            if k == 2 and isint:
                return 'tick(%s)' % lit(rng, t)
            if k == 3 and arith:
                return '%s++' % V
            if k == 4 and t in ('double', 'float'):
                return 'mix(1, %s, 3, 1.5f, 2, 3, 4, 5)' % V
            return lit(rng, t)
        for k in range(nops):
            w = 'b%do%d' % (bi, k)
            op = rng.choice(['load', 'store', 'xchg', 'cas', 'cas', 'cas'] + (['rmw'] * 6 if arith else []))
            gen = rng.random() < .5 or not atomic
            seqc = rng.random() < .35
            if op == 'load':
                q = rng.choice(LO)
                if gen:
                    L.append('__atomic_load(%s, %s, %s);' % (ob(), ad(R), G[q]))
                    L.append(show(rng, t, w, R))
                else:
                    L.append(show(rng, t, w, 'atomic_load(%s)' % ob() if seqc else 'atomic_load_explicit(%s, %s)' % (ob(), q)))
            elif op == 'store':
                q = rng.choice(SO)
                if gen:
                    L.append('%s = %s; __atomic_store(%s, %s, %s);' % (R, va(), ob(), ad(R), G[q]))
                else:
                    L.append('atomic_store(%s, %s);' % (ob(), va()) if seqc else 'atomic_store_explicit(%s, %s, %s);' % (ob(), va(), q))
            elif op == 'xchg':
                q = rng.choice(RO)
                if gen:
                    L.append('%s = %s; __atomic_exchange(%s, %s, %s, %s);' % (E_, va(), ob(), ad(E_), ad(R), G[q]))
                    L.append(show(rng, t, w, R))
                else:
                    L.append(show(rng, t, w, 'atomic_exchange(%s, %s)' % (ob(), va()) if seqc else 'atomic_exchange_explicit(%s, %s, %s)' % (ob(), va(), q)))
            elif op == 'cas':
                s, f = rng.choice(CO)
                if rng.random() < .55:
                    L.append('__atomic_load(%s, &%s, __ATOMIC_RELAXED);' % (P, E_))
                else:
                    L.append('%s = %s;' % (E_, lit(rng, t)))
                # strong only: the weak form may fail in the reference too, but not on this processor
                n = rng.choice(['strong', 'weak'])
                if gen:
                    L.append('%s = %s; pi("%s", __atomic_compare_exchange(%s, %s, %s, %d, %s, %s));' % (R, va(), w, ob(), ad(E_), ad(R), n == 'weak', G[s], G[f]))
                elif seqc:
                    L.append('pi("%s", atomic_compare_exchange_%s(%s, %s, %s));' % (w, n, ob(), ad(E_), va()))
                else:
                    L.append('pi("%s", atomic_compare_exchange_%s_explicit(%s, %s, %s, %s, %s));' % (w, n, ob(), ad(E_), va(), s, f))
                L.append(show(rng, t, w + 'e', E_))
            else:
                q = rng.choice(RO)
                nm = rng.choice(['add', 'sub', 'or', 'xor', 'and'] + (['nand'] if gen else []))
                if gen:
                    e = '__atomic_%s(%s, %s, %s)' % (rng.choice(['fetch_' + nm, nm + '_fetch']), ob(), va(), G[q])
                elif seqc:
                    e = 'atomic_fetch_%s(%s, %s)' % (nm, ob(), va())
                else:
                    e = 'atomic_fetch_%s_explicit(%s, %s, %s)' % (nm, ob(), va(), q)
                if rng.random() < .2:
                    L.append(e + ';')
                else:
                    L.append(show(rng, t, w, e))
            if rng.random() < .15:
                L.append(rng.choice(['atomic_thread_fence(memory_order_seq_cst);', '__atomic_thread_fence(__ATOMIC_ACQ_REL);', 'atomic_signal_fence(memory_order_acquire);',
                                     '__atomic_signal_fence(__ATOMIC_SEQ_CST);', 'pi("%slf", atomic_is_lock_free(%s));' % (w, P) if atomic else 'cnt++;']))
            L.append('pm("%sm", (%s)->g0, sizeof (%s)->g0 * 2 / 2); pm("%sn", (%s)->g1, sizeof (%s)->g1);' % (w, base, base, w, base, base) if t == 'ip' else
                     'pm("%sm", %s, sizeof *(%s));' % (w, base, base))
        # moving pointers: the object expression is evaluated once
        if arith:
            L.append('{ %s mv[6] = {0}, *q = mv; %s n = 1;' % (at, t))
            for k in range(4):
                L.append(rng.choice(['__atomic_fetch_add(q++, n++, __ATOMIC_SEQ_CST);', '__atomic_store(q++, &n, __ATOMIC_RELEASE);', 'atomic_store(q++, n++);' if atomic else 'q++;',
                                     'atomic_exchange(q++, ++n);' if atomic else 'n++;', '__atomic_xor_fetch(++q, n, __ATOMIC_ACQUIRE);']))
            L.append('pm("b%dmv", mv, sizeof mv); pi("b%dq", q - mv); pi("b%dn", n); }' % (bi, bi, bi))
        if rng.random() < .4:
            L.append('{ struct { char a; atomic_flag f; char b; } F; memset(&F, 0x11, sizeof F); atomic_flag_clear%s;' % rng.choice(['(&F.f)', '_explicit(&F.f, memory_order_release)']))
            for k in range(4):
                L.append(rng.choice(['pi("b%df%d", atomic_flag_test_and_set(&F.f));' % (bi, k), 'pi("b%df%d", atomic_flag_test_and_set_explicit(&F.f, memory_order_acquire));' % (bi, k),
                                     'atomic_flag_clear(&F.f);', 'atomic_flag_clear_explicit(&F.f, memory_order_relaxed);']))
            L.append('pi("b%dfa", F.a * 256 + F.b); atomic_flag i_ = ATOMIC_FLAG_INIT; pi("b%dfi", atomic_flag_test_and_set(&i_)); }' % (bi, bi))
        if place == 'heap':
            L.append('free(H);')
        o.append(g)
        o.append('static void f%d(void) {\n  %s\n  pi("b%dcnt", cnt & 0xffff);\n}' % (bi, '\n  '.join(L), bi))
        fn.append('f%d();' % bi)
    o.append('int main(void) { %s return 0; }' % ' '.join(fn))
    return '\n'.join(o) + '\n'


# ---- concurrent histories ------------------------------------------------
CODES = dict(load=0, store=1, xchg=2, cas=3)
FOPS = ['add', 'sub', 'or', 'xor', 'and', 'nand']
for i_, n_ in enumerate(FOPS):
    CODES['fetch_' + n_] = 4 + i_
    CODES[n_ + '_fetch'] = 10 + i_


def hist(rng, t, size, ops, nt, per, rounds, windows):
    """A program in which nt threads perform per operations (per round) on one object
    and write the recorded events to the standard output."""
    sites = []
    sc = 'memory_order_seq_cst'
    u = 'uint%d_t' % (size * 8)
    for k in range(max(len(ops) * 2, 8)):
        op = ops[k % len(ops)]
        gen = rng.random() < .5 or 'nand' in op or op.endswith('_fetch')
        if op == 'load':
            s = '__atomic_load(&X.x, &r, __ATOMIC_SEQ_CST);' if gen else 'r = %s;' % rng.choice(['atomic_load(&X.x)', 'atomic_load_explicit(&X.x, %s)' % sc])
        elif op == 'store':
            s = '__atomic_store(&X.x, &a, __ATOMIC_SEQ_CST);' if gen else rng.choice(['atomic_store(&X.x, a);', 'atomic_store_explicit(&X.x, a, %s);' % sc])
        elif op == 'xchg':
            q = sc if windows else rng.choice(RO)
            s = '__atomic_exchange(&X.x, &a, &r, %s);' % G[q] if gen else 'r = atomic_exchange_explicit(&X.x, a, %s);' % q
        elif op == 'cas':
            a, f = (sc, sc) if windows else rng.choice(CO)
            n = rng.choice(['strong', 'weak'])
            s = 'r = a; ok = ' + ('__atomic_compare_exchange(&X.x, &r, &b, %d, %s, %s);' % (n == 'weak', G[a], G[f]) if gen else
                                  'atomic_compare_exchange_%s_explicit(&X.x, &r, b, %s, %s);' % (n, a, f))
        else:
            q = sc if windows else rng.choice(RO)
            s = 'r = __atomic_%s(&X.x, a, %s);' % (op, G[q]) if gen else 'r = atomic_%s_explicit(&X.x, a, %s);' % (op, q)
        sites.append('case %d: e->op = %d; t0 = hp_now(); %s t1 = hp_now(); break;' % (k, CODES[op], s))
    vals = rng.choice(['v & 7', 'v & 3', '(v & 1) ? v >> 5 : v & 15', 'v * 0x9e3779b97f4a7c15ull'])
    if windows:
        vals = rng.choice(['v & 3', 'v & 7', '(v & 3) << %d' % (size * 8 - 2)])
    return r'''#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdint.h>
#include <stdatomic.h>
#include <pthread.h>
extern uint64_t hp_now(void);
extern void hp_barrier(int n);
typedef struct { uint64_t t0, t1, a, b, r; uint32_t op, ok; } ev;
static struct { %(t)s guard0[64]; _Atomic(%(t)s) x; %(t)s guard1[64]; } X;
static ev *E;
static %(u)s start[%(rounds)d + 1];
static void *worker(void *arg)
{
    long id = (long)arg; uint64_t s = (id + 1) * 0x9e3779b97f4a7c15ull + %(seed)dull, v; int rd, i;
    %(t)s last = 0;
    for (rd = 0; rd < %(rounds)d; rd++) {
        hp_barrier(%(nt)d);
        if (id == 0) start[rd] = (%(u)s)X.x;
        hp_barrier(%(nt)d);
        for (i = 0; i < %(per)d; i++) {
            ev *e = E + ((long)rd * %(nt)d + id) * %(per)d + i;
            %(t)s a, b, r = 0; int ok = 1; uint64_t t0 = 0, t1 = 0;
            s ^= s << 13; s ^= s >> 7; s ^= s << 17; v = s >> 11;
            a = (%(t)s)(%(vals)s); v = s >> 29; b = (%(t)s)(%(vals)s);
            if ((s & 3) != 0) { if ((s & 0xc) == 0) a = (%(t)s)X.x; else a = last; }
            { volatile int d = (s >> 40) & 31; while (d--) ; }
            e->a = (%(u)s)a; e->b = (%(u)s)b;
            switch ((s >> 20) %% %(ns)d) {
            %(sites)s
            }
            last = r; e->r = (%(u)s)r; e->ok = ok; e->t0 = t0; e->t1 = t1;
        }
    }
    return 0;
}
int main(void)
{
    pthread_t th[%(nt)d]; long i; uint64_t h[8] = { 0x54534948, %(size)d, %(nt)d, %(per)d, %(rounds)d, 0, 0, 0 };
    memset(&X, 0x33, sizeof X); E = calloc((long)%(rounds)d * %(nt)d * %(per)d, sizeof *E);
    atomic_init(&X.x, 0);
    for (i = 0; i < %(nt)d; i++) pthread_create(&th[i], 0, worker, (void *)i);
    for (i = 0; i < %(nt)d; i++) pthread_join(th[i], 0);
    start[%(rounds)d] = (%(u)s)X.x;
    for (i = 0; i < 64; i++) { %(t)s g; memset(&g, 0x33, sizeof g); if (X.guard0[i] != g || X.guard1[i] != g) h[5]++; }
    fwrite(h, sizeof h, 1, stdout);
    for (i = 0; i <= %(rounds)d; i++) { uint64_t q = start[i]; fwrite(&q, 8, 1, stdout); }
    fwrite(E, sizeof *E, (long)%(rounds)d * %(nt)d * %(per)d, stdout);
    return 0;
}
''' % dict(t=t, u=u, size=size, nt=nt, per=per, rounds=rounds, vals=vals, ns=len(sites), sites='\n            '.join(sites), seed=rng.randrange(1 << 30))
