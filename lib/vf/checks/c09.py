"""C09: the executed program gets its arguments, streams and exit status intact."""
import os, re, random, shutil, subprocess
from .. import core, build
from ..core import run, run_wd

RULE = ('A case is one start of a probe program under a random process state (words, environment, descriptors, dispositions, mask, umask, limits, closed streams), option set, '
        'source placement, entry function and way of ending; the probe reports all it sees and the report, the streams, the side files and the exit status are compared with the '
        'same probe built by the system compiler and started the same way. Non-trivial: more than one word or a non-default state.')
ASSUMPTIONS = ['the program runs in a child of cjit: process id and parent differ from the native start']
PROBES = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'probes')
HOSTILE = ['', ' ', '-', '--', '-q', '-h', '-v', '-c', '-o', 'x.c', '-O2', '-O', '-g', '-W', '-M', '-f', '-s', '-shared', '--verb', '--help', '-p', '-e', '-C', '-ar', 'conftest.c', '-D', '-Dx=1', '-I', '-L', '-l', '-lm',
           'a b', "it's", '"quoted"', '$HOME', '*', '\\', '\n', 'a\nb', '\t', '=', 'A=B', '@file', '%s%n', '\x01', '\xff\xfe'.encode('latin1'), 'é', '日本', 'x' * 300, 'y' * 5000, '/dev/null', '.', '..', '-std=c99', '-Wall', '-MD', '-fPIC',
           '-pedantic', '-static-libgcc', '--xass', '--xtgz', '--src', ';', '|', '&&', '-1', '0', 'NULL', '-O:', '-e:', '(null)']


class Check:
    def __init__(self, ctx):
        self.ctx = ctx
        self.b = build.build(ctx, 'plain')
        self.b.warm()
        self.dir = ctx.sub('exec')
        self.launch = self.cc('launch.c', 'launch')
        self.native()
        self.text = open(os.path.join(PROBES, 'probe.c'), 'rb').read()
        self.env = self.b.env()

    def cc(self, src, out, *fl):
        o = os.path.join(self.dir, out)
        r = run(['gcc', '-w', '-O0', '-o', o, os.path.join(PROBES, src), *fl, '-lm'])
        if r.rc: raise core.HarnessError('%s: %s' % (src, r.etext[:300]))
        return o

    def native(self):
        self.native_exe = self.cc('probe.c', 'native')

    def one(self, k):
        ctx = self.ctx
        r = ctx.rand('exec', k)
        d = os.path.join(self.dir, 'x%d' % k)
        os.makedirs(d)
        w = os.path.join(d, 'work')
        os.makedirs(w)
        # words
        style = r.randrange(6)
        if style == 0: words = []
        elif style == 1: words = [r.choice(HOSTILE)]
        elif style == 2: words = [r.choice(HOSTILE) for i in range(r.randrange(2, 12))]
        elif style == 3: words = [''.join(chr(r.randrange(1, 127)) for j in range(r.randrange(0, 12))) for i in range(r.randrange(1, 40))]
        elif style == 4: words = ['w%d' % i for i in range(r.choice([100, 255, 256, 257, 1000, 4096]))]
        else: words = ['z' * r.choice([1, 255, 256, 259, 260, 261, 1023, 1024, 4095, 4096, 8191, 8192, 65536, 100000])]
        sep = bool(words) or r.random() < .5
        # the source and its place
        place = r.choice(['file', 'file', 'file', 'two', 'abs', 'sub', 'dash', 'pipe', 'obj', 'cpp'])
        entry = r.choice(['main'] * 5 + ['other', 'mainly', '_start_here'])
        src = 'probe.c'
        if place == 'cpp': src = r.choice(['probe.C', 'probe.cc', 'probe.cxx'])
        if place == 'sub': os.makedirs(os.path.join(w, 'deep/er')); src = 'deep/er/probe.c'
        open(os.path.join(w, src), 'wb').write(self.text)
        files = [src]
        if place == 'abs': files = [os.path.join(w, src)]
        if place == 'two':
            open(os.path.join(w, 'helper.c'), 'w').write('int helper_(void) { return 3; }\n')
            files = r.choice([[src, 'helper.c'], ['helper.c', src]])
        if place == 'obj':
            q = run([self.b.cjit, '-q', '-c', src, '-o', 'probe.o'], cwd=w, env=self.env)
            if q.rc: return self.bad(k, 'compile', 'cjit -c fails on the probe: ' + q.etext[:200], {})
            files = ['probe.o']
        if place == 'dash': files = ['-']
        if place == 'pipe': files = []
        # options, around the files
        opts = []
        if entry != 'main': opts.append(['-e', entry] if r.random() < .6 else ['-e' + entry])
        pid = None
        if r.random() < .5:
            pid = r.choice(['run.pid', './a.pid', os.path.join(w, 'abs.pid')])
            if r.random() < .3: open(os.path.join(w, pid), 'w').write('99999999999\nold\n')
            opts.append(['-p', pid] if r.random() < .6 else ['-p' + pid])
        for o in r.sample([['-q'], ['-O2'], ['-g'], ['-Wall'], ['-DX=1'], ['-I.'], ['-L.'], ['-s'], ['-C-w'], ['-lm'], ['--verb'], ['-fPIC'], ['-pedantic'], ['-MD']], r.randrange(0, 4)):
            opts.append(o)
        opts.append(['-lm'])
        r.shuffle(opts)
        items = opts + [[f] for f in files]
        if r.random() < .6: r.shuffle(items)
        if len(files) == 2:                       # keeps their order
            it = iter(files)
            items = [[next(it)] if i[0] in files else i for i in items]
        cmd = [w2 for i in items for w2 in i]
        if not files and r.random() < .5: sep = sep or False
        if sep: cmd.append('--')
        # 'conftest.c' and '-ar' are special as the first word only
        cmd = [self.b.cjit] + cmd + words
        # the process state
        spec = ['d' + w]
        extra = os.path.join(d, 'extra')
        open(extra, 'w').write('0123456789' * 20)
        inp = os.path.join(d, 'in')
        data = bytes(r.randrange(256) for i in range(r.choice([0, 1, 10, 4095, 4096, 4097, 20000])))
        open(inp, 'wb').write(data)
        outf, errf = os.path.join(d, 'out'), os.path.join(d, 'err')
        for kk in r.sample(range(3, 60), r.choice([0, 0, 1, 3])): spec += ['r%d:%s' % (kk, extra), 'k%d:%d' % (kk, r.randrange(100))]
        for s in r.sample([1, 2, 3, 10, 12, 13, 14, 15, 17, 20, 34], r.choice([0, 0, 1, 2])):
            if s != 17: spec.append('i%d' % s)
        for s in r.sample([1, 2, 10, 12, 14, 15, 40], r.choice([0, 0, 1, 2])): spec.append('b%d' % s)
        if r.random() < .3: spec.append('u%o' % r.choice([0, 0o22, 0o27, 0o77, 0o137]))
        if r.random() < .2: spec.append('n%d' % r.randrange(1, 10))
        if r.random() < .15: spec.append('l%d' % r.choice([220, 250, 600]))
        closed = []
        stdin_src = place in ('dash', 'pipe')
        if r.random() < .12: closed.append(0) if not stdin_src else None
        if r.random() < .08: closed.append(1)
        if r.random() < .08: closed.append(2)
        spec += ['c%d' % c for c in closed]
        env = {'VF_REPORT': os.path.join(d, 'report'), 'PATH': os.environ['PATH'], 'HOME': '/', 'LC_ALL': r.choice(['C', 'C.UTF-8', 'xx_YY'])}
        for kk in ('TMPDIR',):
            if kk in self.env: env[kk] = self.env[kk]
        for i in range(r.choice([0, 0, 3, 50])): env['E%d' % i] = ''.join(chr(r.randrange(1, 127)) for j in range(r.randrange(0, 20)))
        if r.random() < .1: env['LONG'] = 'q' * 60000
        act = r.choice(['r%d' % r.choice([0, 1, 2, 3, 7, 19, 42, 100, 127, 128, 200, 254, 255, 256, 257, -1, -2, 511, 1000]), 'e%d' % r.randrange(300), '_%d' % r.randrange(256), 'q%d' % r.randrange(256),
                        'k%d' % r.choice([1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 24, 25, 26, 27, 30, 31, 34, 40, 64]), 'a0', 'z0', 'x%d' % r.randrange(256), 'f%d' % r.randrange(200), 's%d' % r.randrange(200), 'b%d' % r.randrange(200)])
        env['VF_ACT'] = act
        if pid: env['VF_PIDFILE'] = pid
        if r.random() < .6 and 0 not in closed: env['VF_COPY'] = r.choice(['r', 's'])
        res = []
        for who in ('native', 'cjit'):
            rp = os.path.join(d, 'report')
            for f in (rp, rp + '.cont'):
                if os.path.exists(f): os.unlink(f)
            if who == 'native':
                ref_in = inp
                if stdin_src:
                    ref_in = os.devnull
                if pid: pass
                argv = [self.native_exe] + words
            else:
                argv, ref_in = cmd, (inp if not stdin_src else os.path.join(w, src))
            pipe_in = who == 'cjit' and stdin_src and k % 2
            fo, fe = open(outf, 'wb'), open(errf, 'wb')
            fi = open(ref_in, 'rb')
            q = self.start([self.launch] + spec + ['--'] + argv, env, fi, fo, fe, w, pipe_in)
            for f in (fi, fo, fe): f.close()
            rep = open(rp, 'rb').read() if os.path.exists(rp) else b''
            res.append({'rc': q[0], 'timeout': q[1], 'rep': rep, 'out': open(outf, 'rb').read(), 'err': open(errf, 'rb').read(), 'cont': os.path.exists(rp + '.cont')})
        files_ = {'probe.c': self.text, 'command.txt': '\n'.join(repr(x) for x in [self.launch] + spec + ['--'] + cmd) + '\n' + '\n'.join('%s=%r' % i for i in sorted(env.items())), 'native_report.txt': res[0]['rep'], 'cjit_report.txt': res[1]['rep'], 'cjit_stderr.txt': res[1]['err']}
        ctx.case('x%d' % k, nontrivial=len(words) > 0 or len(spec) > 1)
        ctx.obs('starts')
        ctx.obs('words_passed', len(words))
        ctx.distinct('ends', act)
        ctx.distinct('states', tuple(spec[1:]))
        ctx.obs('place_' + place)
        ctx.obs('entry_' + entry)
        n, c = res
        if n['timeout'] or b'done' not in n['rep']: raise core.HarnessError('native probe: %s %s %s' % (n['rc'], n['err'][-200:], spec))
        if c['timeout']: return self.bad(k, 'hang', 'does not end', files_)
        if b'done' not in c['rep']: return self.bad(k, 'norun', 'the program does not run to its end: status %s %s' % (c['rc'], c['err'][-300:].decode('latin1')), files_)
        want = n['rc'] if n['rc'] >= 0 else -n['rc']
        if c['rc'] != want: return self.bad(k, 'status', 'cjit ends with %s instead of %s (%s)' % (c['rc'], want, act), files_)
        a, b = self.parse(n['rep']), self.parse(c['rep'])
        argv0 = files[-1] if files else None
        for key in sorted(set(a) | set(b), key=str):
            x, y = a.get(key), b.get(key)
            ctx.obs('facts_compared')
            if key == 'arg 0':
                # in the order they are given
                if argv0 is not None and bytes.fromhex((y or b'').decode()) != os.fsencode(argv0): return self.bad(k, 'argv0', 'argv[0] is %r instead of %r' % (bytes.fromhex((y or b'').decode()), argv0), files_)
                continue
            if key in ('pid',): continue
            if key == 'entry':
                if y != entry.encode(): return self.bad(k, 'entry', '%s runs instead of %s' % (y, entry), files_)
                continue
            if key == 'pidfile':
                if y != b'1': return self.bad(k, 'pidfile', 'the program does not find its own process id in the pid file', files_)
                continue
            if stdin_src and key == 'fd 0': continue
            if stdin_src and key == 'buffered': continue
            if key in ('fd 0', 'fd 1', 'fd 2') and x and y: x, y = [re.sub(rb'pos \d+', b'', z) if not (key == 'fd 0') else z for z in (x, y)]
            if x != y: return self.bad(k, 'state', 'the program sees %s: %s instead of %s' % (key, (y or b'nothing')[:120].decode('latin1'), (x or b'nothing')[:120].decode('latin1')), files_)
        if pid:
            # what is left in the file
            t = open(os.path.join(w, pid), 'rb').read().strip()
            if t != b['pid']: return self.bad(k, 'pidfile', 'pid file holds %r, the program was %r' % (t, b['pid']), files_)
            ctx.obs('pid_files')
        if c['out'] != n['out'] and 1 not in closed: return self.bad(k, 'stdout', 'standard output has %d bytes instead of %d: %r' % (len(c['out']), len(n['out']), c['out'][:80]), files_)
        pr = lambda e: [l for l in e.split(b'\n') if l.startswith(b'PROG')]
        if pr(c['err']) != pr(n['err']): return self.bad(k, 'stderr', 'standard error differs: %r %r' % (pr(c['err']), pr(n['err'])), files_)
        if c['cont'] != n['cont']: return self.bad(k, 'stop', 'cjit returns while the program is stopped', files_)
        ctx.obs('stream_bytes', len(n['out']))
        shutil.rmtree(d)

    def start(self, argv, env, fi, fo, fe, cwd, pipe=False):
        p = subprocess.Popen(argv, stdin=subprocess.PIPE if pipe else fi, stdout=fo, stderr=fe, cwd=cwd, env=env, start_new_session=True)
        try:
            if pipe:
                try:
                    p.communicate(fi.read(), timeout=60)
                except BrokenPipeError:
                    pass
            rc, to = p.wait(timeout=60), False
        except subprocess.TimeoutExpired:
            rc, to = -9, True
        core._killpg(p.pid)
        if to: p.wait()
        return rc, to

    def parse(self, rep):
        o = {}
        for l in rep.split(b'\n'):
            f = l.split(b' ', 2)
            if not l: continue
            if f[0] in (b'arg', b'env', b'fd', b'cwd'): o[(f[0] + b' ' + f[1]).decode()] = f[2] if len(f) > 2 else b''
            else: o[f[0].decode()] = b' '.join(f[1:])
        return o

    def bad(self, k, kind, msg, files):
        self.ctx.violation('%s-x%d' % (kind, k), msg, files)
        shutil.rmtree(os.path.join(self.dir, 'x%d' % k), ignore_errors=True)


def pidfail(c):
    """a pid file that cannot be written: no program is left behind"""
    ctx = c.ctx
    d = ctx.sub('pidfail')
    open(os.path.join(d, 'p.c'), 'w').write('#include <stdio.h>\n#include <unistd.h>\nint main(void) { fclose(fopen("ran", "w")); usleep(300000); fclose(fopen("ended", "w")); return 7; }\n')
    for p in ('/nonexistent-dir/x.pid', 'p.c/x', '.'):
        for f in ('ran', 'ended'):
            if os.path.exists(os.path.join(d, f)): os.unlink(os.path.join(d, f))
        with open(os.path.join(d, 'o'), 'wb') as o:
            st = c.start([c.b.cjit, '-q', '-p', p, 'p.c'], c.env, subprocess.DEVNULL, o, o, d)
        ran, ended = [os.path.exists(os.path.join(d, f)) for f in ('ran', 'ended')]
        ctx.case('pidfail-' + p)
        if st[0] == 0: ctx.violation('pidfail-%s' % p, 'status 0 although the pid file %s cannot be written' % p, {})
        if ran and not ended: ctx.violation('pidfail-%s' % p, 'cjit ends with %s while the program still runs' % st[0], {})
        if open(os.path.join(d, 'o')).read() == '': ctx.violation('pidfail-%s' % p, 'nothing tells that the pid file %s cannot be written' % p, {})


def check(ctx):
    c = Check(ctx)
    pidfail(c)
    core.pmap(c.one, range(ctx.n(900, 15000)))
