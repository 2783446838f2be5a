"""C19 atomics: value semantics against the system compiler; recorded concurrent
histories checked offline; locks, stacks and litmus tests with their own oracles."""
import os, re
from .. import core, build, diffc
from ..gen import atomics

RULE = ('A case is a sequential program of atomic operations compared value by value with the system compiler, or a concurrent run whose recorded '
        'history was checked (linearizable rounds, chain of read-modify-write results), or a lock/stack/litmus/torn-access run with its own oracle. '
        'Non-trivial: for concurrent runs, overlapping operations or interleavings were observed.')
ASSUMPTIONS = ['the processor of the run is the only machine observed (x86-64); orders weaker than seq_cst are exercised but only their effect on this machine is seen',
               'CLOCK_MONOTONIC is consistent across cores', 'operators on _Atomic objects are a known finding; they are observed separately and used nowhere else']

COMMON = r'''#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdint.h>
#include <stdatomic.h>
#include <pthread.h>
extern uint64_t hp_now(void);
extern void hp_barrier(int n);
static void delay(unsigned n) { volatile unsigned d = n; while (d--) ; }
static uint64_t rnd(uint64_t *s) { *s ^= *s << 13; *s ^= *s >> 7; *s ^= *s << 17; return *s >> 11; }
static void go(int n, void *(*f)(void *)) { pthread_t t[16]; long i; for (i = 0; i < n; i++) pthread_create(&t[i], 0, f, (void *)i); for (i = 0; i < n; i++) pthread_join(t[i], 0); }
'''

# locks: an unprotected pair of variables inside the critical section
LOCK = COMMON + r'''
#define T %(T)d
#define N %(N)d
static atomic_flag fl = ATOMIC_FLAG_INIT; static char rawflag[8]; static _Atomic(%(ty)s) w; static _Atomic(%(ty)s) nxt, serving; static atomic_int want[2], turn;
static volatile long A[32], B; static volatile int inside; static long bad, contended, cnt[16];
static void *work(void *p)
{
    long id = (long)p, i; uint64_t s = id * 77 + 12345; long c = 0;
    hp_barrier(T);
    for (i = 0; i < N; i++) {
        %(acquire)s
        if (inside++) bad++;
        A[0]++; delay(rnd(&s) & 15); B++; if (A[0] != B) bad++;
        if (--inside) bad++;
        %(release)s
        delay(rnd(&s) & 31);
    }
    cnt[id] = c; return 0;
}
int main(void) { long i; go(T, work); for (i = 0; i < T; i++) contended += cnt[i];
  if (bad || B != (long)T * N) printf("BAD %%ld overlaps in the critical section, %%ld of %%ld increments\n", bad, (long)B, (long)T * N); else printf("OK entries=%%ld contended=%%ld\n", (long)B, contended); return 0; }
'''
LOCKS = {
    'flag': ('while (atomic_flag_test_and_set(&fl)) c++;', 'atomic_flag_clear(&fl);', 0),
    'flag_explicit': ('while (atomic_flag_test_and_set_explicit(&fl, memory_order_acquire)) c++;', 'atomic_flag_clear_explicit(&fl, memory_order_release);', 0),
    'test_and_set': ('while (__atomic_test_and_set(rawflag + 3, __ATOMIC_ACQUIRE)) c++;', '__atomic_clear((_Bool *)rawflag + 3, __ATOMIC_RELEASE);', 0),
    'exchange': ('while (atomic_exchange(&w, 1)) c++;', 'atomic_store(&w, 0);', 0),
    'cas': ('{ %(ty)s e = 0; while (!atomic_compare_exchange_weak_explicit(&w, &e, 1, memory_order_acquire, memory_order_relaxed)) { e = 0; c++; } }',
            'atomic_store_explicit(&w, 0, memory_order_release);', 0),
    'cas_xor': ('{ %(ty)s e; do { e = 0; c++; } while (!__atomic_compare_exchange(&w, &e, &(%(ty)s){5}, 0, __ATOMIC_SEQ_CST, __ATOMIC_RELAXED)); }', '__atomic_fetch_and(&w, 0, __ATOMIC_SEQ_CST);', 0),
    'ticket': ('{ %(ty)s me = atomic_fetch_add(&nxt, 1); while (atomic_load(&serving) != me) c++; }', 'atomic_fetch_add(&serving, 1);', 0),
    'peterson': ('atomic_store(&want[id], 1); atomic_store(&turn, 1 - id); while (atomic_load(&want[1 - id]) && atomic_load(&turn) == 1 - id) c++;', 'atomic_store(&want[id], 0);', 2),
    'peterson_generic': ('{ int one = 1, o = 1 - id, a, b; __atomic_store(&want[id], &one, __ATOMIC_SEQ_CST); __atomic_store(&turn, &o, __ATOMIC_SEQ_CST);'
                         ' for (;;) { __atomic_load(&want[1 - id], &a, __ATOMIC_SEQ_CST); if (!a) break; __atomic_load(&turn, &b, __ATOMIC_SEQ_CST); if (b != o) break; c++; } }',
                         'atomic_store(&want[id], 0);', 2),
    'peterson_fence': ('atomic_store_explicit(&want[id], 1, memory_order_relaxed); atomic_store_explicit(&turn, 1 - id, memory_order_relaxed); atomic_thread_fence(memory_order_seq_cst);'
                       ' while (atomic_load_explicit(&want[1 - id], memory_order_acquire) && atomic_load_explicit(&turn, memory_order_acquire) == 1 - id) c++;',
                       'atomic_store_explicit(&want[id], 0, memory_order_release);', 2),
}

# Treiber stack / free list: every node is owned by one thread at a time
STACK = COMMON + r'''
#define T %(T)d
#define N %(N)d
#define K 24
typedef %(ty)s word;
static _Atomic(word) head; static struct { volatile word next; volatile int owner; } node[K + 1]; static long bad, fails[16], empty[16];
static word mk(word idx, word old) { return idx | ((word)((old >> 8) + 1) << 8); }
static void *work(void *p)
{
    long id = (long)p, i, j, n = 0; int mine[K]; uint64_t s = id * 99 + 4321;
    hp_barrier(T);
    for (i = 0; i < N; i++) {
        if (n && (rnd(&s) & 1)) {
            int k = mine[--n]; word e = atomic_load(&head), nw;
            if (node[k].owner != id + 1) bad++;
            node[k].owner = 0;
            node[k].next = e;
            /* the expected object is the node itself: it may only change on failure */
            for (;;) {
                nw = mk(k, node[k].next);
                if (%(push)s) break;
                fails[id]++;
            }
        } else {
            word e = atomic_load(&head), nw; int k;
            for (;;) {
                k = e & 255; if (!k) break;
                nw = mk(node[k].next & 255, e);
                if (%(pop)s) break;
                fails[id]++;
            }
            if (!k) { empty[id]++; continue; }
            if (node[k].owner) bad++;
            node[k].owner = id + 1; mine[n++] = k;
        }
    }
    while (n) node[mine[--n]].owner = -1;
    return 0;
}
int main(void)
{
    long i, f = 0, m = 0, c = 0; for (i = 1; i <= K; i++) node[i].next = i - 1;
    atomic_init(&head, K); go(T, work); for (i = 0; i < T; i++) f += fails[i], m += empty[i];
    for (i = atomic_load(&head) & 255; i && c <= K; i = node[i].next & 255) { if (node[i].owner) bad++; c++; }
    for (i = 1; i <= K; i++) if (node[i].owner == -1) c++;
    if (bad || c != K) printf("BAD %%ld nodes were in two hands, %%ld of %%d nodes at the end\n", bad, c, K); else printf("OK ops=%%ld contended=%%ld empty=%%ld\n", (long)T * N, f, m);
    return 0;
}
'''

# neighbours: every thread owns one element of an array packed into few words
NEIGH = COMMON + r'''
#define T %(T)d
#define N %(N)d
static _Atomic(%(ty)s) a[T] __attribute__((aligned(8)));
static long bad;
static void *work(void *p)
{
    long id = (long)p, i; uint64_t s = id * 7 + 1; %(ty)s m = 0, e, r;
    hp_barrier(T);
    for (i = 0; i < N; i++) {
        %(ty)s v = (%(ty)s)rnd(&s);
        switch (rnd(&s) %% 9) {
        case 0: atomic_store(&a[id], v); m = v; break;
        case 1: r = atomic_exchange(&a[id], v); if (r != m) bad++; m = v; break;
        case 2: r = atomic_fetch_add(&a[id], v); if (r != m) bad++; m += v; break;
        case 3: r = atomic_fetch_sub_explicit(&a[id], v, memory_order_relaxed); if (r != m) bad++; m -= v; break;
        case 4: r = atomic_fetch_xor(&a[id], v); if (r != m) bad++; m ^= v; break;
        case 5: r = __atomic_and_fetch(&a[id], v, __ATOMIC_SEQ_CST); m &= v; if (r != m) bad++; break;
        case 6: e = m; if (!atomic_compare_exchange_strong(&a[id], &e, v)) bad++; if (e != m) bad++; m = v; break;
        case 7: e = m + 1; if (atomic_compare_exchange_strong(&a[id], &e, v)) bad++; if (e != m) bad++; break;
        default: r = atomic_load(&a[id]); if (r != m) bad++; break;
        }
    }
    if (atomic_load(&a[id]) != m) bad++;
    return 0;
}
int main(void) { go(T, work); if (bad) printf("BAD %%ld values changed by operations on neighbouring objects\n", bad); else printf("OK ops=%%ld\n", (long)T * N); return 0; }
'''

# torn or invented values: writers write one of a few patterns, readers must see one of them
TORN = COMMON + r'''
#define T %(T)d
#define N %(N)d
typedef %(ty)s word;
static struct { char pad[%(off)d]; _Atomic(word) x; } __attribute__((aligned(64))) S;
static long bad, seen[16], sw[16];
static word pat(int k) { word v; memset(&v, 0x11 * (k & 15), sizeof v); return v; }
static void *work(void *p)
{
    long id = (long)p, i; uint64_t s = id * 7 + 1; word r, v, prev = pat(0); unsigned char b[sizeof(word)];
    hp_barrier(T);
    for (i = 0; i < N; i++) {
        int k = rnd(&s) & 15; v = pat(k);
        if (id & 1) { %(write)s continue; }
        else { %(read)s }
        memcpy(b, &r, sizeof r); for (k = 1; k < (int)sizeof r; k++) if (b[k] != b[0]) break;
        if (k < (int)sizeof r || (b[0] & 15) != b[0] >> 4) bad++;
        if (memcmp(&r, &prev, sizeof r)) sw[id]++;
        prev = r;
    }
    return 0;
}
int main(void) { long i, c = 0; word z = pat(0); __atomic_store(&S.x, &z, __ATOMIC_SEQ_CST); go(T, work); for (i = 0; i < T; i++) c += sw[i];
  if (bad) printf("BAD %%ld values read that nobody wrote\n", bad); else printf("OK reads=%%ld interleavings=%%ld\n", (long)T / 2 * N, c); return 0; }
'''

# litmus: N iterations of two or four threads meeting at a barrier
LITMUS = COMMON + r'''
#define T %(T)d
#define N %(N)d
static struct { _Atomic(%(ty)s) v; char pad[120]; } X __attribute__((aligned(128))), Y __attribute__((aligned(128))), Z;
static volatile long plain;
static %(ty)s R[4][N]; static long Q[4][N];
static void *work(void *p)
{
    long id = (long)p, i; uint64_t s = id * 7 + 1;
    for (i = 0; i < N; i++) {
        %(ty)s r0 = 0, r1 = 0; long q = 0;
        hp_barrier(T);
        if (id == 0) { atomic_store_explicit(&X.v, 0, memory_order_relaxed); atomic_store_explicit(&Y.v, 0, memory_order_relaxed); plain = 0; }
        hp_barrier(T);
        delay(rnd(&s) & 7);
        switch (id) {
        %(body)s
        }
        R[id][i] = r0 | r1 << 1; Q[id][i] = q;
    }
    return 0;
}
int main(void) { long i, bad = 0, h[4] = {0}; go(T, work);
  for (i = 0; i < N; i++) { int a = R[0][i], b = R[1][i], c = R[2][i], d = R[3][i]; (void)a; (void)b; (void)c; (void)d; if (%(forbidden)s) bad++; h[(%(cls)s) & 3]++; }
  if (bad) printf("BAD forbidden outcome %%ld times in %%d\n", bad, N); else printf("OK iterations=%%d outcomes=%%ld/%%ld/%%ld/%%ld\n", N, h[0], h[1], h[2], h[3]); return 0; }
'''
SBF, SBC = 'a == 0 && b == 0', 'a + 2 * b'
LIT = {
    'sb_store': (2, 'case 0: atomic_store(&X.v, 1); r0 = atomic_load(&Y.v); break; case 1: atomic_store(&Y.v, 1); r0 = atomic_load(&X.v); break;', SBF, SBC),
    'sb_store_generic': (2, 'case 0: { %(ty)s o = 1; __atomic_store(&X.v, &o, __ATOMIC_SEQ_CST); __atomic_load(&Y.v, &r0, __ATOMIC_SEQ_CST); break; }'
                            'case 1: { %(ty)s o = 1; __atomic_store(&Y.v, &o, __ATOMIC_SEQ_CST); __atomic_load(&X.v, &r0, __ATOMIC_SEQ_CST); break; }', SBF, SBC),
    'sb_fence': (2, 'case 0: atomic_store_explicit(&X.v, 1, memory_order_relaxed); atomic_thread_fence(memory_order_seq_cst); r0 = atomic_load_explicit(&Y.v, memory_order_relaxed); break;'
                    'case 1: atomic_store_explicit(&Y.v, 1, memory_order_relaxed); __atomic_thread_fence(__ATOMIC_SEQ_CST); r0 = atomic_load_explicit(&X.v, memory_order_relaxed); break;', SBF, SBC),
    'sb_plain_fence': (2, 'case 0: *(volatile %(ty)s *)&X.v = 1; atomic_thread_fence(memory_order_seq_cst); r0 = *(volatile %(ty)s *)&Y.v; break;'
                          'case 1: *(volatile %(ty)s *)&Y.v = 1; atomic_thread_fence(memory_order_seq_cst); r0 = *(volatile %(ty)s *)&X.v; break;', SBF, SBC),
    'sb_exchange': (2, 'case 0: atomic_exchange(&X.v, 1); r0 = atomic_load(&Y.v); break; case 1: atomic_fetch_or(&Y.v, 1); r0 = atomic_load(&X.v); break;', SBF, SBC),
    'sb_cas_failed': (2, 'case 0: { %(ty)s e = 7; atomic_store_explicit(&X.v, 1, memory_order_relaxed); atomic_compare_exchange_strong(&Z.v, &e, 1); r0 = atomic_load(&Y.v); break; }'
                         'case 1: { %(ty)s e = 7; atomic_store_explicit(&Y.v, 1, memory_order_relaxed); atomic_compare_exchange_strong(&Z.v, &e, 1); r0 = atomic_load(&X.v); break; }', SBF, SBC),
    'mp': (2, 'case 0: plain = 77; atomic_store_explicit(&X.v, 1, memory_order_release); break; case 1: r0 = atomic_load_explicit(&X.v, memory_order_acquire); q = plain; break;',
           'b == 1 && Q[1][i] != 77', 'b'),
    'mp_wait': (2, 'case 0: plain = 77; atomic_store_explicit(&X.v, 1, memory_order_release); break; case 1: while (!(r0 = atomic_load_explicit(&X.v, memory_order_acquire))) r1 = 1; q = plain; break;',
                'Q[1][i] != 77', 'b >> 1'),
    'mp_flag': (3, 'case 0: atomic_store(&Y.v, 1); atomic_fetch_add(&X.v, 1); break; case 1: r0 = atomic_load(&X.v); r1 = atomic_load(&Y.v); break; case 2: r0 = atomic_fetch_sub(&Z.v, 1); r0 = 0; break;',
                '(b & 1) && !(b & 2)', 'b'),
    'iriw': (4, 'case 0: atomic_store(&X.v, 1); break; case 1: atomic_store(&Y.v, 1); break; case 2: r0 = atomic_load(&X.v); r1 = atomic_load(&Y.v); break; case 3: r0 = atomic_load(&Y.v); r1 = atomic_load(&X.v); break;',
             'c == 1 && d == 1', 'c'),
    'corr': (3, 'case 0: atomic_store(&X.v, 1); break; case 1: r0 = atomic_load(&X.v); r1 = atomic_load(&X.v); break; case 2: r0 = atomic_load_explicit(&X.v, memory_order_relaxed); r1 = atomic_load_explicit(&X.v, memory_order_relaxed); break;',
             'b == 1 || c == 1', 'b'),
}

OPS_RMW = r'''
static %(ty)s x; static void *work(void *p) { int i; hp_barrier(%(T)d); for (i = 0; i < %(N)d; i++) { %(op)s } return 0; }
int main(void) { go(%(T)d, work); if (x != (%(ty)s)((long)%(T)d * %(N)d)) printf("BAD %%ld of %%ld\n", (long)x, (long)%(T)d * %(N)d); else printf("OK\n"); return 0; }
'''

U = {1: 'unsigned char', 2: 'unsigned short', 4: 'unsigned', 8: 'unsigned long'}
S = {1: 'signed char', 2: 'short', 4: 'int', 8: 'long long'}


def check(ctx):
    b = build.build(ctx, 'plain')
    d = ctx.sub('w')
    hp = build.cc(ctx, os.path.join(d, 'libhp.so'), [os.path.join(os.path.dirname(__file__), '..', 'probes', 'hp.c')], ['-O2', '-shared', '-fPIC'])
    hist = build.cc(ctx, os.path.join(d, 'hist'), [os.path.join(os.path.dirname(__file__), '..', 'probes', 'hist.cpp')], ['-O2'], compiler='g++')
    df = diffc.Diff(ctx, b, cjit_flags=['-q'])
    env = b.env(LD_LIBRARY_PATH=d)

    def seq(i):
        p = atomics.seq(ctx.rand('seq', i))
        df.case('seq%d' % i, p, what='sequential atomics')
        for m in re.findall(r'\b(?:__atomic|atomic)_\w+', p):
            ctx.distinct('operations', m)
    core.pmap(seq, range(ctx.n(60, 900)))

    def run(name, text, mode, attempts=1):
        """-> (source path, result); mode mem or exe"""
        src = os.path.join(d, name + '.c')
        with open(src, 'w') as f:
            f.write(text)
        fl = ['-q', '-L' + d, '-lhp', '-lpthread']
        if mode == 'mem':
            r = core.run_wd([b.cjit] + fl + [src], timeout=40, env=env)
        else:
            exe = os.path.join(d, name + '.x')
            c = core.run_wd([b.cjit] + fl + ['-o', exe, src], timeout=40, env=env)
            if c.rc != 0 or not os.path.exists(exe):
                return src, c
            r = core.run_wd([exe], timeout=40, env=env)
            os.unlink(exe)
        return src, r

    def bad(name, src, r, msg):
        ctx.violation(name, msg, {'prog.c': open(src, 'rb').read(), 'out.txt': r.out[:20000], 'err.txt': r.err,
                                  'cmd.txt': b'gcc -O2 -shared -fPIC -o libhp.so /verif/lib/vf/probes/hp.c; cjit -L. -lhp -lpthread prog.c\n'})

    def conc(job):
        kind, name, size, k = job
        rng = ctx.rand(kind, name, size, k)
        mode = rng.choice(['mem', 'mem', 'exe'])
        ty = rng.choice([U, U, S])[size]
        key = '%s-%s-%d' % (kind, name, size)
        if kind == 'hist':
            lin = name == 'lin'
            fe = [o for o in atomics.CODES if o.startswith('fetch')]
            if lin:
                ops = list(atomics.CODES)
                if rng.random() < .5:
                    ops = rng.sample(ops, 5)
                shape = rng.choice([(4, 4), (3, 5), (5, 3), (2, 8), (6, 2)])
                p = atomics.hist(rng, ty, size, ops, shape[0], shape[1], ctx.n(4000, 15000), True)
            else:
                ops = rng.choice([['xchg', 'cas'] + fe + ['add_fetch', 'sub_fetch', 'xor_fetch'], ['cas'], ['fetch_add', 'cas'], ['xchg'], ['fetch_nand', 'fetch_xor'],
                                  rng.sample(fe, 3), ['add_fetch'], ['sub_fetch', 'xor_fetch', 'fetch_or', 'fetch_and']])
                p = atomics.hist(rng, ty, size, ops, rng.choice([2, 4, 6]), ctx.n(40000, 80000), 1, False)
            src, r = run('%s%d' % (key, k), p, mode)
            if r.rc != 0 or r.timeout:
                bad(key, src, r, 'the program failed: ' + r.brief(600) if not r.out.startswith(b'HIST') else 'exit %s' % r.rc)
                return
            hb = src[:-2] + '.bin'
            with open(hb, 'wb') as f:
                f.write(r.out)
            h = core.run([hist, name, hb], timeout=300)
            os.unlink(hb)
            if h.rc == 1:
                ctx.violation(key, h.text[:3000], {'prog.c': p, 'history.bin': r.out[:8 << 20], 'verdict.txt': h.out})
                return
            if h.rc != 0:
                raise core.HarnessError('hist: %s %s' % (h.rc, h.text))
            m = dict(re.findall(r'(\w+)=(\d+)', h.text))
            ctx.obs('history_events', int(m['events']))
            ctx.obs('overlapping_pairs', int(m['overlaps']))
            ctx.obs('interleavings_seen', int(m['interleavings']))
            ctx.obs('cas_failed', int(m['cas_failed']))
            ctx.obs('model_states', int(m['states']))
            ctx.case('%s-%d' % (key, k), nontrivial=int(m['overlaps']) + int(m['interleavings']) + int(m['cas_failed']) > 0)
            ctx.sample('%s: %s' % (key, h.text.strip()))
            os.unlink(src)
            return
        N = ctx.n(60000, 250000)
        if kind == 'lock':
            a, rl, nt = LOCKS[name]
            p = LOCK % dict(T=nt or rng.choice([2, 3, 4]), N=N, ty=ty, acquire=a.replace('%(ty)s', ty), release=rl.replace('%(ty)s', ty))
        elif kind == 'stack':
            e, o = rng.choice([('atomic_compare_exchange_strong(&head, %s, nw)', ''), ('atomic_compare_exchange_weak_explicit(&head, %s, nw, memory_order_acq_rel, memory_order_acquire)', ''),
                               ('__atomic_compare_exchange(&head, %s, &nw, 0, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST)', '')])
            p = STACK % dict(T=rng.choice([2, 4, 6]), N=N, ty=U[size], push=e % '(word *)&node[k].next', pop=e % '&e')
        elif kind == 'neigh':
            p = NEIGH % dict(T=8, N=N, ty=U[size])
        elif kind == 'torn':
            tys = {4: ['int', 'float', 'struct { short a, b; }'], 8: ['double', 'long', 'char *', 'struct { int a, b; }'], 2: ['short', 'struct { char a, b; }'], 1: ['unsigned char', '_Bool']}
            t = rng.choice([x for x in tys[size] if x != '_Bool'])
            if t.startswith('struct'):
                t = 'struct tw ' + t[6:]
            w = rng.choice(['__atomic_store(&S.x, &v, __ATOMIC_RELAXED);', '__atomic_store(&S.x, &v, __ATOMIC_SEQ_CST);', '__atomic_exchange(&S.x, &v, &r, __ATOMIC_RELAXED);',
                            'atomic_store_explicit(&S.x, v, memory_order_release);', '__atomic_load(&S.x, &r, __ATOMIC_RELAXED); __atomic_compare_exchange(&S.x, &r, &v, 0, __ATOMIC_RELAXED, __ATOMIC_RELAXED);'])
            rd = rng.choice(['__atomic_load(&S.x, &r, __ATOMIC_RELAXED);', 'r = atomic_load(&S.x);', '__atomic_load(&S.x, &r, __ATOMIC_ACQUIRE);',
                             '{ word z = pat(k); r = z; __atomic_compare_exchange(&S.x, &r, &z, 0, __ATOMIC_RELAXED, __ATOMIC_RELAXED); }'])
            # every object lies inside one cache line, at a multiple of its size
            p = TORN % dict(T=4, N=N, ty=t, off=64 - size if rng.random() < .7 else size, write=w, read=rd)
        elif kind == 'litmus':
            T, body, forb, cls = LIT[name]
            p = LITMUS % dict(T=T, N=N if T == 2 else N // 2, ty=U[size], body=body.replace('%(ty)s', U[size]), forbidden=forb, cls=cls)
        src, r = run('%s%d' % (key, k), p, mode)
        if r.rc != 0 or r.timeout or not r.out.startswith(b'OK'):
            bad(key, src, r, '%s (%s): %s' % (key, mode, r.brief(800)))
            return
        m = dict(re.findall(r'(\w+)=([\d/]+)', r.text))
        for x in ('contended', 'interleavings', 'ops', 'entries', 'reads', 'iterations'):
            if x in m:
                ctx.obs(kind + '_' + x, int(m[x]))
        if 'outcomes' in m:
            for i, q in enumerate(m['outcomes'].split('/')):
                if int(q):
                    ctx.distinct('litmus_outcomes', '%s:%d' % (name, i))
        ctx.case('%s-%d' % (key, k), nontrivial=not any(m.get(x) == '0' for x in ('contended', 'interleavings')))
        ctx.sample('%s: %s' % (key, r.text.strip()), 12)
        os.unlink(src)

    rep = ctx.n(1, 5)
    jobs = []
    for k in range(rep):
        for s in (1, 2, 4, 8):
            jobs += [('hist', 'lin', s, 2 * k), ('hist', 'lin', s, 2 * k + 1), ('hist', 'chain', s, 2 * k), ('hist', 'chain', s, 2 * k + 1), ('neigh', 'n', s, k),
                     ('torn', 't', s, 2 * k), ('torn', 't', s, 2 * k + 1)]
        for i, n in enumerate(LOCKS):
            jobs.append(('lock', n, (1, 2, 4, 8)[(i + k + ctx.seed) % 4], k))
        for s in (4, 8):
            jobs.append(('stack', 's', s, k))
        for i, n in enumerate(LIT):
            jobs.append(('litmus', n, (1, 2, 4, 8)[(i + k + ctx.seed) % 4], k))
            if n.startswith('sb'):
                jobs.append(('litmus', n, (1, 2, 4, 8)[(i + k + ctx.seed + 2) % 4], k))
    core.pmap(conc, jobs, workers=2)

    # known findings, observed again
    def known(name, text):
        for _ in range(6):
            src, r = run(name, text, 'mem')
            if r.rc == 0 and r.out.startswith(b'BAD'):
                bad(name, src, r, r.text)
                return
            if r.rc != 0:
                break
        ctx.obs('known_finding_not_seen')
    known('operators-rmw', COMMON + OPS_RMW % dict(ty='atomic_int', T=4, N=300000, op='x++;'))
    known('operators-compound', COMMON + OPS_RMW % dict(ty='_Atomic long', T=4, N=300000, op='x += 1;'))
    known('operators-store-order', LITMUS % dict(T=2, N=60000, ty='int', forbidden=SBF, cls=SBC,
          body='case 0: X.v = 1; r0 = Y.v; break; case 1: Y.v = 1; r0 = X.v; break;'))
    known('struct-alignment', TORN % dict(T=4, N=200000, ty='struct tw { int a, b; }', off=60, write='__atomic_store(&S.x, &v, __ATOMIC_SEQ_CST);', read='__atomic_load(&S.x, &r, __ATOMIC_SEQ_CST);'))
