"""C17 threads with compiler states of their own: same transcripts as alone, and no data race."""
import os, re, shutil, glob
from .. import core, build
from . import c18

RULE = ('A case is one run of 2-8 threads, each executing its own script of library operations on its own states (options, valid and invalid sources, objects, relocation, '
        'calls and runs of the compiled code with callbacks, written files, symbol lists, deletion) with random pauses before operations and inside callbacks; the transcript of '
        'every thread is compared with that of its script alone in a process with one thread. Two thirds of the runs use a ThreadSanitizer build of the library (any report is a '
        'violation), the rest an uninstrumented or an ASan/UBSan build. A common log orders the beginnings and ends of all operations. Non-trivial: operations of different threads '
        'did overlap in that log.')
ASSUMPTIONS = ['the functions given to the library by the program (callbacks, allocator) are themselves safe to call from several threads', 'code generated by the compiler is not instrumented: races inside it are out of scope',
               'no -b: the bounds checker keeps one table per process by design', 'names of local labels (L.n) are not part of the results']

# no output of their own: one stdout for all threads
RUNS = [b'#include <stdlib.h>\nvoid host_print(const char *, long);\nstatic void q(void) { host_print("atexit", 1); }\nint main(int c, char **v) { static int n; atexit(q); host_print(v[c - 1], n++); exit(c + 40); }\n',
        b'void host_print(const char *, long);\nstatic int n = 5; int main(int c, char **v) { int i; for (i = 0; i < 20; i++) host_print(v[0], n++ * i); return n; }\n',
        b'#include <stdlib.h>\n#include <string.h>\nint host_add(int);\nint main(int c, char **v) { char *p = malloc(1000); int i, s = 0; for (i = 0; i < 1000; i++) p[i] = i * c; for (i = 0; i < 1000; i++) s += p[i]; s += host_add(strlen(v[0])); free(p); return s & 127; }\n',
        b'int main(void) { return undefined_thing(); }\n', b'int notmain(void) { return 0; }\n', b'#include <stdlib.h>\nstatic void rec(int n) { if (n == 0) exit(9); rec(n - 1); }\nint main(void) { rec(50); return 1; }\n',
        b'void host_print(const char *, long);\n__attribute__((constructor)) static void a(void) { host_print("ctor", 3); }\n__attribute__((destructor)) static void b(void) { host_print("dtor", 4); }\nint main(void) { host_print("main", 0); return 3; }\n',
        b'#include <math.h>\n#include <stdio.h>\n#include <string.h>\nvoid host_print(const char *, long);\nint main(void) { char b[200]; double x = 2; int i; for (i = 0; i < 30; i++) x = sqrt(x) + i * 1.5; sprintf(b, "%.6f %Lf", x, (long double)x); host_print(b, strlen(b)); return 0; }\n']
# a fault in a function called with a backtrace state: reported through the state's own callback
FAULTS = [b'int main(int c, char **v) { int *p = 0; return *p; }\n', b'static int g(int a) { return 7 / a; }\nstatic int h(int a) { return g(a) + 1; }\nint main(int c, char **v) { return h(c - c); }\n',
          b'static void deep(char *p, int n) { if (n) deep(p, n - 1); else *p = 1; }\nint main(void) { deep((char *)16, 6); return 0; }\n']


def check(ctx):
    b = build.build(ctx, 'plain')
    kinds = {'plain': b, 'tsan': build.build(ctx, 'tsan'), 'asan': build.build(ctx, 'asan')}
    flags = {'plain': [], 'tsan': ['-fsanitize=thread'], 'asan': build.SAN.split()}
    drv = {}
    for k, bb in kinds.items():
        drv[k] = os.path.join(ctx.sub('drv'), 'threads-' + k)
        r = core.run(['gcc', '-g', '-O1', '-w'] + flags[k] + ['-I' + bb.tccdir, '-o', drv[k], os.path.join(os.path.dirname(__file__), '..', 'probes', 'threads.c'), bb.libtcc, '-ldl', '-lm', '-lpthread'])
        if r.rc:
            raise core.HarnessError(r.etext[-1500:])
    here = os.path.join(os.path.dirname(__file__), '..', '..', '..', 'corpus')
    corpus = [open(p, 'rb').read() for c in ('c01', 'c03', 'c04', 'c06') for p in sorted(glob.glob(os.path.join(here, c, '*.c')))]
    base = ctx.sub('files')
    c18.base_files(base)

    def one(j):
        rng = ctx.rand('t', j)
        d = ctx.sub('t%d' % j)
        for n in os.listdir(base):
            os.symlink(os.path.join(base, n), os.path.join(d, n))
        nt = rng.choice([2, 3, 4, 8])
        same = rng.random() < .15
        scripts, no = [], 0
        for t in range(nt):
            ops = []
            for _ in range(rng.choice([2, 3, 5])):
                p, f = c18.plan(rng, no, d, 1, corpus, runs=RUNS, kinds=('mem', 'mem', 'mem', 'mem', 'run', 'run', 'run', 'obj', 'exe', 'dll', 'bare'))
                p = [o for o in p if not re.match(r'opt\t-(b$|bad|bt|ftest|flead)', o)]
                if any(o == 'opt\t-static' for o in p):
                    p = [o for o in p if o != 'opt\t-static']
                if any(o.startswith('run\t') for o in p):
                    if not any(o == 'sym' for o in p):
                        p.insert(2, 'sym') if p[1].startswith('out') else None
                    if rng.random() < .3:
                        # a fault of this thread's program only
                        s = 's%d_f.c' % no
                        open(os.path.join(d, s), 'wb').write(rng.choice(FAULTS))
                        p = ['new', 'opt\t-bt', 'out\t1', 'file\t' + s, 'run\tprog', 'del']
                ops += [(no, o) for o in p]
                no += 1
            name = 'thread%d.txt' % t
            with open(os.path.join(d, name), 'w') as f:
                for i, o in ops:
                    a, _, r = o.partition('\t')
                    f.write('%s\t%d%s\n' % (a, i, '\t' + r if _ else ''))
            scripts.append(name)
        env = dict(os.environ, LC_ALL='C', ASAN_OPTIONS='detect_leaks=0:exitcode=99:detect_odr_violation=0:handle_segv=0:handle_sigfpe=0:allow_user_segv_handler=1', UBSAN_OPTIONS='print_stacktrace=1',
                   TSAN_OPTIONS='exitcode=98:report_signal_unsafe=0:handle_segv=0:handle_sigfpe=0:allow_user_segv_handler=1:report_thread_leaks=0')
        key = 'threads-%d' % j
        norm = lambda t: re.sub('|'.join(re.escape(x.tccdir) for x in kinds.values()), 'TCC', t)
        # each alone
        alone = {}
        for s in scripts:
            r = core.run([drv['plain'], b.tccdir, '0', 'log0', s], cwd=d, env=env, timeout=12)
            if r.rc != 0:
                ctx.inconclusive('alone-ends')
                shutil.rmtree(d, ignore_errors=True)
                return
            alone[s] = norm(open(os.path.join(d, s + '.out'), errors='replace').read())
        seeds = [rng.randrange(1, 10**6) for _ in range(3)]
        overlap = 0
        for rep, (kind, sd) in enumerate(zip(['tsan', 'tsan', rng.choice(['plain', 'asan'])], seeds)):
            r = core.run([drv[kind], b.tccdir, str(sd), 'log', *scripts], cwd=d, env=env, timeout=60)
            txt = r.etext
            msg = None
            if r.timeout:
                r = core.run([drv[kind], b.tccdir, str(sd), 'log', *scripts], cwd=d, env=env, timeout=300)
                if r.timeout:
                    msg = 'no end with %d threads (%s build), every script alone ends' % (nt, kind)
            san = core.san_report(r.err)
            if san and 'stack-overflow' in san:
                ctx.inconclusive('deep-nesting')
                break
            if san:
                fr = re.findall(r'#\d+ (\S+) [^\n]*?(\w+\.[ch]:\d+)', r.etext)[:8]
                msg = '%s build: %s in %s' % (kind, san, ' / '.join('%s %s' % x for x in fr))
            elif not msg and r.rc != 0:
                msg = '%s build: exit %s with %d threads' % (kind, r.rc, nt)
            got = {}
            for s in scripts:
                try:
                    got[s] = norm(open(os.path.join(d, s + '.out'), errors='replace').read())
                except OSError:
                    got[s] = ''
                ctx.obs('thread_transcripts_compared')
                if not msg and got[s] != alone[s]:
                    x, y = got[s].split('\n'), alone[s].split('\n')
                    k = next((k for k in range(max(len(x), len(y))) if x[k:k + 1] != y[k:k + 1]), 0)
                    msg = '%s build, %s of %d: alone %r, among the others %r' % (kind, s, nt, y[k:k + 1], x[k:k + 1])
            # what the log shows
            try:
                evs = [l.split() for l in open(os.path.join(d, 'log')).read().split('\n') if l]
            except OSError:
                evs = []
            openop = {}
            sig = []
            for e in evs:
                if len(e) != 3:
                    continue
                ctx.obs('operation_events')
                if e[1] == '1':
                    openop[e[0]] = e[2]
                    for o, n in openop.items():
                        if o != e[0]:
                            overlap += 1
                            ctx.obs('overlapping_operations')
                            ctx.distinct('overlapping_pairs', '+'.join(sorted((n, e[2]))))
                else:
                    openop.pop(e[0], None)
                sig.append(e[0] + e[1])
            ctx.distinct('interleavings', hash(''.join(sig)))
            if msg:
                files = {'report.err': r.err, 'log.txt': '\n'.join(' '.join(e) for e in evs)}
                for s in scripts:
                    files[s] = open(os.path.join(d, s)).read()
                    files[s + '.alone'] = alone[s]
                    files[s + '.out'] = got[s]
                for n in os.listdir(d):
                    if re.match(r's\d+_\w+\.c$', n):
                        files[n] = open(os.path.join(d, n), 'rb').read()
                ctx.violation(key, msg + ' (seed %d)' % sd, files)
                break
        ctx.case(key, nontrivial=overlap > 0)
        if j < 2:
            ctx.sample({'threads': nt, 'first': open(os.path.join(d, scripts[0])).read()[:400]})
        shutil.rmtree(d, ignore_errors=True)
    only = os.environ.get('VF_ONLY')
    core.pmap(one, [int(only)] if only else range(ctx.n(150, 3500)), workers=4)
