"""C12 runtime assets: real cjit processes started together, killed and made to fail at every
system call of the extraction, on directories in all states; a preloaded monitor compares the
whole directory at the moment each process opens its source file."""
import io, os, re, shutil, signal, subprocess, tarfile, time
from .. import core, build

RULE = ('A case is one history of cjit processes on one runtime directory (killed at one system call, one failing call, concurrent starts with delays and kills, or a '
        'prepared state of the directory), followed by ordinary starts. At every opening of a source or header by a compiler the monitor reads back every asset and '
        'compares size and hash. Non-trivial: the directory is not complete at the beginning.')
ASSUMPTIONS = ['kills are process deaths: data already written stays written (no power loss)',
               'nobody else changes a complete directory; other files in the directory are not looked at',
               'the directory name is the compiled-in one: each case patches the version string of its own copy of the executable']


def fnv(bs):
    h = 2166136261
    for c in bs:
        h = ((h ^ c) * 16777619) & 0xffffffff
    return h


MAIN = r'''
#include "vfprobe1.h"
#include <stdio.h>
#include <stdarg.h>
#include <stddef.h>
#include <stdbool.h>
#include <float.h>
#include <stdatomic.h>
#include <stdalign.h>
#include <stdnoreturn.h>
#include "vfprobe2.h"
static int sum(int n, ...) { va_list a; int r = 0; va_start(a, n); while (n--) r += va_arg(a, int); va_end(a); return r; }
int main(void)
{
    volatile long double ld = 123456789012.0L;
    unsigned long long u = (unsigned long long)ld;
    atomic_int k; atomic_init(&k, 3); atomic_fetch_add(&k, 4);
    float f = (float)(unsigned long long)(ld * 3);
    printf("ok %d %llu %d %.0f %d\n", sum(3, 1, 2, 3), u, (int)k, (double)f, VF1 + VF2 + (int)offsetof(struct vf, b));
    return 0;
}
'''
GOOD = b'ok 6 123456789012 7 370370379776 11\n'


def check(ctx):
    b = build.build(ctx, 'plain')
    os.chmod(ctx.dir, 0o755)      # some processes run as another user
    # what must be there: the embedded archives, read by another implementation, against the files they were made from
    want = {}
    src = os.path.join(b.top, 'src')
    for f in sorted(os.listdir(src)):
        if f.startswith('embed_') and f.endswith('.c'):
            hexs = re.findall(r'0x([0-9a-f]{2})', open(os.path.join(src, f)).read())
            for m in tarfile.open(fileobj=io.BytesIO(bytes(int(x, 16) for x in hexs)), mode='r:gz'):
                if m.isfile():
                    want[m.name] = None
            t = tarfile.open(fileobj=io.BytesIO(bytes(int(x, 16) for x in hexs)), mode='r:gz')
            for m in t:
                if m.isfile():
                    want[m.name] = t.extractfile(m).read()
    if len(want) < 10:
        raise core.HarnessError('embedded assets: %s' % sorted(want))
    for n, c in want.items():
        p = os.path.join(b.tccdir, n)
        if os.path.isfile(p) and open(p, 'rb').read() != c:
            ctx.violation('embedded-' + n, 'the embedded copy of %s differs from the file it was made from' % n, {'embedded': c})
    for n in os.listdir(os.path.join(b.tccdir, 'include')):
        if n.endswith('.h') and 'include/' + n not in want:
            ctx.violation('embedded-' + n, 'header %s is not embedded' % n, {})
    exp = os.path.join(ctx.sub('exp'), 'expect.txt')
    with open(exp, 'w') as f:
        for n, c in sorted(want.items()):
            f.write('%d %u %s\n' % (len(c), fnv(c), n))
    shim = os.path.join(ctx.sub('exp'), 'shim.so')
    r = core.run(['gcc', '-O2', '-shared', '-fPIC', '-o', shim, os.path.join(os.path.dirname(__file__), '..', 'probes', 'assets.c'), '-ldl'])
    if r.rc:
        raise core.HarnessError(r.etext)
    bindata = open(b.cjit, 'rb').read()
    ver = b.version.encode()
    if bindata.count(ver) < 1:
        raise core.HarnessError('no version string')

    class World:
        """one copy of cjit with a runtime directory of its own"""
        def __init__(self, key):
            self.key = key
            tag = ('w%sk%d' % (os.getpid(), World.k)).encode()
            World.k += 1
            name = (tag + b'x' * len(ver))[:len(ver)]
            if len(tag) > len(ver):
                raise core.HarnessError('version too short')
            self.d = ctx.sub('w-' + key)
            self.cjit = os.path.join(self.d, 'cjit')
            # written by another process: a descriptor open for writing here could be inherited by a concurrent fork
            if core.run(['dd', 'of=' + self.cjit, 'bs=1M', 'status=none'], input=bindata.replace(ver, name)).rc:
                raise core.HarnessError('copy of cjit')
            os.chmod(self.cjit, 0o755)
            self.assets = '/tmp/cjit-' + name.decode()
            ctx.paths.append(self.assets)
            self.log = os.path.join(self.d, 'log.txt')
            open(self.log, 'w').close()
            os.chmod(self.log, 0o666)
            self.src = os.path.join(self.d, 'vfprobe_main.c')
            for n, t in (('vfprobe_main.c', MAIN), ('vfprobe1.h', '#define VF1 3\n'), ('vfprobe2.h', '#define VF2 4\nstruct vf { int a, b; };\n')):
                with open(os.path.join(self.d, n), 'w') as f:
                    f.write(t)

        def env(self, seed=0, delay=0, window=0, monitor=True):
            e = dict(os.environ, LC_ALL='C')
            e.pop('CFLAGS', None)
            if monitor:
                e.update(LD_PRELOAD=shim, VF_DIR=self.assets, VF_LOG=self.log, VF_EXPECT=exp, VF_RSEED=str(seed), VF_DELAY=str(delay), VF_WINDOW=str(window))
            return e

        def cmd(self, rng):
            return [self.cjit, '-q'] + rng.choice([[], [], ['-C-b'], ['-C-bt']]) + [self.src]

        def state(self):
            """what is wrong with the directory now"""
            for n, c in want.items():
                p = os.path.join(self.assets, n)
                try:
                    got = open(p, 'rb').read()
                except OSError as e:
                    return '%s: %s' % (n, e.strerror)
                if got != c:
                    return '%s: %d of %d bytes%s' % (n, len(got), len(c), ', other contents' if len(got) == len(c) else '')

        def snap(self):
            r = {}
            for dp, ds, fs in os.walk(self.assets):
                for n in fs + ds:
                    st = os.lstat(os.path.join(dp, n))
                    r[os.path.relpath(os.path.join(dp, n), self.assets)] = (st.st_ino, st.st_mtime_ns, st.st_size)
            return r

        def events(self):
            return [l.split(' ', 2) for l in open(self.log, errors='replace').read().split('\n') if l.count(' ') >= 2]

        def judge(self, what):
            """compilations that began on an incomplete directory, from the log"""
            ev = self.events()
            bad = [e for e in ev if e[1] == 'BAD']
            ctx.obs('compile_moments_checked', sum(1 for e in ev if e[1] == 'compile'))
            ctx.obs('directory_events', len(ev))
            if bad:
                self.fail('%s: a compilation reads its source while the runtime directory is incomplete: %s' % (what, bad[0][2]))
            return ev

        def fail(self, msg, r=None):
            files = {'log.txt': open(self.log, errors='replace').read()[:200000], 'history.txt': '\n'.join(self.hist)}
            if r is not None:
                files['out.txt'], files['err.txt'] = r.out, r.err
            ctx.violation(self.key, msg, files)

        hist = ()

        def run(self, cmd, **kw):
            self.hist = list(self.hist) + [' '.join(cmd)]
            return core.run(cmd, cwd=self.d, timeout=60, **kw)

        def must_work(self, what, rng, n=1):
            """ordinary starts: right result, complete directory, later starts leave it alone"""
            r = self.run(self.cmd(rng), env=self.env())
            if r.rc != 0 or r.out != GOOD:
                self.fail('%s: an ordinary start fails: exit %s output %r %s' % (what, r.rc, r.out[:100], r.etext[-400:]), r)
                return
            s = self.state()
            if s:
                self.fail('%s: after an ordinary start the directory is not as embedded: %s' % (what, s), r)
                return
            s1 = self.snap()
            r = self.run(self.cmd(rng), env=self.env())
            if r.rc != 0 or r.out != GOOD:
                self.fail('%s: a start on the complete directory fails: exit %s %s' % (what, r.rc, r.etext[-400:]), r)
            elif self.snap() != s1:
                d = [k for k in self.snap() if s1.get(k) != self.snap().get(k)]
                self.fail('%s: a start on the complete directory writes to it: %s' % (what, d[:5]), r)
            ctx.obs('ordinary_starts_checked', 2)

        def done(self):
            core.run(['rm', '-rf', self.assets, self.d])
    World.k = 0

    # ---- the system calls of a first start
    w = World('baseline')
    tr = os.path.join(w.d, 'trace')
    r = w.run(['strace', '-qq', '-o', tr, '-e', 'signal=none', w.cjit, '-q', w.src], env=w.env(monitor=False))
    usable = r.rc == 0 and r.out == GOOD
    points = []
    if usable:
        cnt, started = {}, False
        for l in open(tr, errors='replace'):
            m = re.match(r'(\w+)\(', l)
            if not m:
                continue
            c = m.group(1)
            cnt[c] = cnt.get(c, 0) + 1
            if w.assets in l:
                started = True
            if started and c not in ('exit_group', 'brk', 'mmap', 'munmap', 'mprotect'):
                points.append((c, cnt[c]))
            if 'vfprobe_main' in l and 'open' in c:
                break
        ctx.obs('system_calls_of_a_first_start', len(points))
    else:
        ctx.note('strace cannot be used here: kill points by time only (%s)' % r.etext[-200:])
    w.done()

    def faulted(key, rng, inject, what):
        w = World(key)
        try:
            r = w.run(['strace', '-qq', '-o', '/dev/null', '-E', 'LD_PRELOAD=' + shim] + [x for i in inject for x in ('-e', 'inject=' + i)] + [w.cjit, '-q', w.src],
                      env={k: v for k, v in w.env().items() if k != 'LD_PRELOAD'})
            if r.timeout:
                w.fail('%s: no end' % what, r)
                return
            before = w.state()
            w.judge(what)
            killed = r.rc < 0 or r.rc == 137
            if not killed:
                if r.rc == 0 and r.out != GOOD:
                    w.fail('%s: exit 0 with other output %r' % (what, r.out[:100]), r)
            else:
                ctx.obs('starts_killed')
            if before:
                ctx.obs('incomplete_directories_left')
            ctx.distinct('left_behind', before)
            if rng.random() < .3:
                procs(w, rng, what, rng.randrange(2, 5), delay=rng.choice([0, 2000]), kills=0)
            w.must_work(what + ', then', rng)
            w.judge(what + ', then')
        finally:
            w.done()
        ctx.case(key, nontrivial=bool(before))

    def procs(w, rng, what, n, delay, kills, limited=0):
        ps = []
        t_end = time.time() + 60
        for i in range(n):
            c = w.cmd(rng)
            role = 'kill' if i < kills else 'limit' if i < kills + limited else 'plain'
            if role == 'limit':
                lim = rng.choice([0, 1, 2, 8, 40])
                c = ['sh', '-c', 'trap "" XFSZ; ulimit -f %d; exec "$@"' % lim, 'sh'] + c
            w.hist = list(w.hist) + ['& %s %s' % (role, ' '.join(c))]
            ps.append([role, None, c])
        rng.shuffle(ps)
        for p in ps:
            p[1] = subprocess.Popen(p[2], cwd=w.d, env=w.env(rng.randrange(1 << 30), delay, rng.choice([0, 0, 20000])), stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.PIPE, start_new_session=True)
            if rng.random() < .4:
                time.sleep(rng.random() * rng.choice([.001, .01, .03]))
        for p in ps:
            if p[0] == 'kill':
                time.sleep(rng.random() * rng.choice([.003, .02]))
                try:
                    p[1].send_signal(rng.choice([signal.SIGKILL, signal.SIGKILL, signal.SIGTERM, signal.SIGINT]))
                except ProcessLookupError:
                    pass
        for role, p, c in ps:
            try:
                out, err = p.communicate(timeout=max(1, t_end - time.time()))
            except subprocess.TimeoutExpired:
                os.killpg(p.pid, signal.SIGKILL)
                p.communicate()
                w.fail('%s: a concurrent start does not end' % what)
                continue
            ctx.obs('concurrent_starts')
            r = core.Res(p.returncode, out, err, False, 0)
            if role == 'plain' and (p.returncode != 0 or out != GOOD):
                w.fail('%s: one of %d concurrent starts fails: exit %s output %r %s' % (what, n, p.returncode, out[:100], r.etext[-300:]), r)
            elif role != 'plain' and p.returncode == 0 and out != GOOD:
                w.fail('%s: exit 0 with other output %r' % (what, out[:100]), r)

    def conc(key, rng):
        w = World(key)
        try:
            n = rng.choice([2, 2, 3, 4, 6, 8])
            delay = rng.choice([0, 300, 3000, 3000, 10000])
            kills = rng.choice([0, 0, 1, 2]) if n > 2 else rng.choice([0, 0, 1])
            lim = rng.choice([0, 0, 1]) if n - kills > 1 else 0
            what = '%d starts at once (%d killed, %d limited, delays %d us)' % (n, kills, lim, delay)
            procs(w, rng, what, n, delay, kills, lim)
            w.must_work(what + ', then', rng)
            ev = w.judge(what)
            ids = {}
            ctx.distinct('interleavings', hash(tuple((ids.setdefault(e[0], len(ids)), e[1], e[2]) for e in ev)))
        finally:
            w.done()
        ctx.case(key, nontrivial=True)

    def limit(key, rng, kb):
        """file size limit: short writes"""
        w = World(key)
        try:
            c = ['sh', '-c', 'trap "" XFSZ; ulimit -f %d; exec "$@"' % kb, 'sh'] + w.cmd(rng)
            r = w.run(c, env=w.env())
            what = 'file size limit of %d blocks' % kb
            if r.rc == 0 and (r.out != GOOD or w.state()):
                w.fail('%s: exit 0 although the assets are incomplete: %s' % (what, w.state()), r)
            w.judge(what)
            w.must_work(what + ', then', rng)
            w.judge(what)
        finally:
            w.done()
        ctx.case(key, nontrivial=True)

    def prepared(key, rng, kind):
        """states of the directory left by others"""
        w = World(key)
        nob = ['setpriv', '--reuid=65534', '--regid=65534', '--clear-groups']
        try:
            what = kind
            os.chmod(w.d, 0o755)
            A = w.assets
            if kind == 'empty':
                os.mkdir(A)
            elif kind == 'partial':
                os.mkdir(A)
                os.mkdir(A + '/include')
                for n, c in want.items():
                    if rng.random() < .6:
                        os.makedirs(os.path.dirname(os.path.join(A, n)), exist_ok=True)
                        with open(os.path.join(A, n), 'wb') as f:
                            f.write(rng.choice([c, c[:len(c) // 2], b'', c + b'tail', b'#error old\n', b'\0' * len(c)]))
            elif kind == 'others':
                os.mkdir(A)
                for n in ('zz.h', 'include2', 'lib.a'):
                    with open(os.path.join(A, n), 'wb') as f:
                        f.write(b'not mine')
            elif kind == 'link':
                os.mkdir(w.d + '/real')
                os.symlink(w.d + '/real', A)
            if kind in ('empty', 'partial', 'others', 'link'):
                w.must_work(what, rng)
                if kind == 'others' and open(A + '/zz.h').read() != 'not mine':
                    w.fail('another file of the directory was changed')
            elif kind in ('file', 'dangling', 'asset-is-dir', 'include-is-file', 'foreign-partial', 'foreign-empty'):
                pre = []
                if kind == 'file':
                    open(A, 'w').write('x')
                elif kind == 'dangling':
                    os.symlink(w.d + '/nowhere/at/all', A)
                elif kind == 'asset-is-dir':
                    os.makedirs(A + '/' + rng.choice(sorted(want)))
                elif kind == 'include-is-file':
                    os.mkdir(A)
                    open(A + '/include', 'w').write('x')
                else:
                    os.mkdir(A)
                    os.chmod(A, 0o755)
                    if kind == 'foreign-partial':
                        os.mkdir(A + '/include')
                        for n, c in want.items():
                            if rng.random() < .7:
                                os.makedirs(os.path.dirname(os.path.join(A, n)), exist_ok=True)
                                with open(os.path.join(A, n), 'wb') as f:
                                    f.write(c[:rng.randrange(len(c))])
                    pre = nob
                r = w.run(pre + w.cmd(rng), env=w.env())
                if r.rc == 0 or r.out or r.rc < 0:
                    w.fail('%s: the assets cannot be written, yet exit %s output %r %s' % (kind, r.rc, r.out[:80], r.etext[-200:]), r)
                ctx.obs('unusable_directories_refused')
            elif kind in ('foreign-complete', 'foreign-concurrent'):
                r = w.run(w.cmd(rng), env=w.env())
                s1 = w.snap()
                if kind == 'foreign-concurrent':
                    p = subprocess.Popen(w.cmd(rng), cwd=w.d, env=w.env(rng.randrange(1 << 30), 20000), stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
                r = w.run(nob + w.cmd(rng), env=w.env())
                if kind == 'foreign-concurrent':
                    p.wait()
                if r.rc != 0 or r.out != GOOD:
                    w.fail('a complete directory of another user is not reused: exit %s %s' % (r.rc, r.etext[-300:]), r)
                elif w.snap() != s1:
                    w.fail('a complete directory of another user was changed', r)
            w.judge(what)
        finally:
            if os.path.islink(w.assets) or os.path.isfile(w.assets):
                os.unlink(w.assets)
            w.done()
        ctx.distinct('prepared', kind)
        ctx.case(key, nontrivial=kind != 'foreign-complete')

    def request(key, rng, kind):
        """--xass"""
        w = World(key)
        try:
            dst = w.assets
            if kind == 'default':
                c = [w.cjit, '--xass']
            elif kind == 'default-twice':
                w.run([w.cjit, '--xass'], env=w.env())
                c = [w.cjit, '--xass']
            elif kind == 'after-kill':
                for k in range(3):
                    p = subprocess.Popen([w.cjit, '--xass'], cwd=w.d, env=w.env(rng.randrange(1 << 30), 2000), stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
                    time.sleep(rng.random() * .03)
                    p.kill()
                    p.wait()
                c = [w.cjit, '--xass']
            else:
                # an own short directory: the extractor refuses long names
                base = '/tmp/%s' % os.path.basename(w.assets)[5:]
                core.run(['mkdir', base])
                ctx.paths.append(base)
                w.base = base
                nm = rng.choice(['d', 'with space', 'x' * 40, 'a.b', '-x', 'deep'])
                dst = os.path.join(base, nm)
                arg = dst
                if kind == 'slash':
                    arg = dst + rng.choice(['/', '//', '/.', '/../' + nm])
                    if '/.' in arg[len(dst):] and rng.random() < .5:
                        os.mkdir(dst)
                elif kind == 'relative':
                    arg = rng.choice([nm, './' + nm]) if nm != '-x' else './-x'
                elif kind == 'exists-empty':
                    os.mkdir(dst)
                elif kind == 'exists-partial':
                    os.mkdir(dst)
                    os.mkdir(dst + '/include')
                    open(dst + '/include/stddef.h', 'w').write('#error')
                    open(dst + '/mine.txt', 'w').write('mine')
                elif kind == 'twice':
                    core.run([w.cjit, '--xass=' + dst], env=w.env(), cwd=base)
                c = [w.cjit, '--xass=' + arg]
            cwd = getattr(w, 'base', w.d)
            w.hist = list(w.hist) + [' '.join(c)]
            r = core.run(c, cwd=cwd, env=w.env(), timeout=30)
            s = None
            for n, t in want.items():
                p = os.path.join(dst, n)
                if not os.path.isfile(p) or open(p, 'rb').read() != t:
                    s = n
                    break
            if r.rc != 0:
                w.fail('--xass (%s) fails: exit %s %s' % (kind, r.rc, r.etext[-300:]), r)
            elif s:
                w.fail('--xass (%s) ends with exit 0, but %s is not as embedded' % (kind, s), r)
            else:
                line = r.text.strip().split('\n')[-1] if r.text.strip() else r.etext.strip().split('\n')[-1]
                real = os.path.realpath(os.path.join(cwd, line))
                if real != os.path.realpath(dst):
                    w.fail('--xass (%s) names %r, the assets are in %s' % (kind, line, dst), r)
            if kind == 'exists-partial' and open(dst + '/mine.txt').read() != 'mine':
                w.fail('--xass changed another file')
            if kind.startswith('default') or kind == 'after-kill':
                w.must_work(kind, rng)
                w.judge(kind)
            ctx.obs('requests_checked')
        finally:
            w.done()
            if getattr(w, 'base', None):
                core.run(['rm', '-rf', w.base])
        ctx.distinct('requests', kind)
        ctx.case(key, nontrivial=True)

    jobs = []
    rng = ctx.rand('plan')
    if usable:
        ERR = ['ENOSPC', 'EIO', 'EACCES', 'EMFILE', 'EDQUOT', 'EROFS']
        for c, k in points:
            jobs.append(('kill-%s-%d' % (c, k), lambda key, r, c=c, k=k: faulted(key, r, ['%s:signal=SIGKILL:when=%d' % (c, k)], 'killed at %s number %d' % (c, k))))
            if c in ('mkdir', 'openat', 'open', 'write', 'writev', 'close', 'flock', 'creat', 'rename', 'mkdirat', 'fsync'):
                e = rng.choice(ERR)
                jobs.append(('fail-%s-%d-%s' % (c, k, e), lambda key, r, c=c, k=k, e=e: faulted(key, r, ['%s:error=%s:when=%d' % (c, e, k)], '%s number %d fails with %s' % (c, k, e))))
        for c in ('write', 'openat', 'mkdir', 'close'):
            for k in sorted({k for cc, k in points if cc == c})[::4]:
                jobs.append(('failall-%s-%d' % (c, k), lambda key, r, c=c, k=k: faulted(key, r, ['%s:error=ENOSPC:when=%d+' % (c, k)], 'every %s from number %d fails' % (c, k))))
        rng.shuffle(jobs)
        del jobs[ctx.n(280, 100000):]
    for i in range(ctx.n(140, 1500)):
        jobs.append(('conc-%d' % i, conc))
    for kb in ([0, 1, 4, 12, 30, 60] if ctx.tier == 'quick' else range(0, 130)):
        jobs.append(('limit-%d' % kb, lambda key, r, kb=kb: limit(key, r, kb)))
    for kind in ('empty', 'partial', 'others', 'link', 'file', 'dangling', 'asset-is-dir', 'include-is-file', 'foreign-partial', 'foreign-empty', 'foreign-complete', 'foreign-concurrent'):
        for i in range(ctx.n(6 if kind == 'partial' else 2, 20)):
            jobs.append(('state-%s-%d' % (kind, i), lambda key, r, kind=kind: prepared(key, r, kind)))
    for kind in ('default', 'default-twice', 'after-kill', 'plain', 'slash', 'relative', 'exists-empty', 'exists-partial', 'twice'):
        for i in range(ctx.n(2, 20)):
            jobs.append(('xass-%s-%d' % (kind, i), lambda key, r, kind=kind: request(key, r, kind)))
    core.pmap(lambda j: j[1](j[0], ctx.rand(j[0])), jobs)
