"""C08: symbols resolve across modules as C linkage rules require."""
import os, re, shutil
from .. import core, build
from ..core import run, run_wd
from ..gen import symgen

RULE = ('A case is one (module graph, mode): modules giving a small pool of names different roles (references, weak references, strong, weak, tentative, internal, '
        'aliased and inline definitions), linked directly, from archives or from a shared object, run by cjit in memory or built with -o from sources or objects, or cjit '
        'objects linked by the system linker; what every module sees of every name (value, mutations, absence), which archive members took part, or the refusal naming a '
        'symbol, is compared with gcc -fcommon and GNU ld. Non-trivial: at least two modules use a common name.')
ASSUMPTIONS = ['tentative definitions of the same type merge as with gcc -fcommon', 'inline definitions of one function are identical']


class Case:
    def __init__(self, chk, k):
        self.c, self.ctx, self.b = chk, chk.ctx, chk.b
        self.k, self.name = k, 'g%d' % k
        self.r = self.ctx.rand('graph', k)
        self.dir = os.path.join(chk.dir, self.name)
        os.makedirs(self.dir)
        self.mods, self.syms = symgen.graph(self.r)
        self.so = [m for m in self.mods if m.where == 'S']
        self.srcs = {m.name: symgen.source(m, self.syms, len(self.mods), [s.i for s in self.so]) for m in self.mods}
        for n, t in self.srcs.items():
            open(os.path.join(self.dir, n + '.c'), 'w').write(t)
        self.log = []

    def sh(self, cmd, **kw):
        self.log.append(' '.join(cmd))
        return run_wd(cmd, cwd=self.dir, env=dict(self.b.env(), LD_LIBRARY_PATH=self.dir), timeout=20, **kw)

    def groups(self):
        g = {'direct': [], 'A': [], 'B': []}
        for m in self.mods:
            if m.where != 'S': g[m.where].append(m.name)
        return g

    def run(self):
        ctx, r = self.ctx, self.r
        g = self.groups()
        direct = g['direct'][:]
        r.shuffle(direct)
        ars = [a for a in 'AB' if g[a]]
        r.shuffle(ars)
        if len(ars) == 2 and r.random() < .4: ars = ars + ars[:1]
        for m in self.mods:
            q = self.sh(['gcc', '-w', '-std=gnu11', '-fcommon', '-fPIC', '-c', m.name + '.c', '-o', m.name + '.g.o'])
            if q.rc: raise core.HarnessError('reference compile of %s: %s' % (m.name, q.etext[:300]))
        memb = {a: r.sample(g[a], len(g[a])) for a in 'AB'}
        for a in 'AB':
            if g[a]: self.must(['ar', 'rcs', 'g%s.a' % a] + [m + '.g.o' for m in memb[a]])
        so = []
        sym = r.random() < .6
        if self.so:
            q = self.sh(['gcc', '-w', '-shared', '-o', 'libS.so'] + (['-Wl,-Bsymbolic'] if sym else []) + [m.name + '.g.o' for m in self.so])
            if q.rc: raise core.HarnessError('shared object: ' + q.etext[:300])
            so = ['libS.so']
        refso = so
        q = self.sh(['gcc', '-o', 'ref'] + [m + '.g.o' for m in direct] + ['g%s.a' % a for a in ars] + refso)
        self.refused = None
        if q.rc and 'unresolvable' in q.etext:
            ctx.obs('graphs_beyond_ld')
            shutil.rmtree(self.dir)
            return
        if q.rc:
            names = set(re.findall(r"undefined reference to `(\w+)'|multiple definition of `(\w+)'", q.etext))
            self.refused = {a or b for a, b in names}
            self.kinds = sorted({'undef' if a else 'dup' for a, b in names})
            if not self.refused: raise core.HarnessError('reference link: ' + q.etext[:400])
            ctx.obs('graphs_refused')
            for k in self.kinds: ctx.obs('graphs_' + k)
        else:
            self.ref = self.sh(['./ref'])
            if self.ref.rc < 0 or self.ref.timeout: raise core.HarnessError('reference run %s: %s' % (self.name, self.ref.rc))
        ctx.obs('graphs')
        # what the system linker took from the archives
        users = sum(1 for k, n, i in self.syms if sum(n in m.roles for m in self.mods) > 1)
        for m in self.mods:
            for k, n, i in self.syms:
                if n in m.roles: ctx.distinct('roles', (m.where, m.roles[n])); ctx.obs('role_' + m.roles[n])
        self.cobj = {}
        modes = ['src', 'obj', 'gobj', 'exe', 'exeobj', 'link']
        if ctx.quick: modes = r.sample(modes, 3 if not self.so else 6)
        for mode in modes:
            if self.so and not sym and mode in ('src', 'obj', 'gobj'): continue     # a library's own references cannot reach a program in memory
            if self.so and sym and mode in ('exe', 'exeobj', 'link'): continue
            ctx.case('%s/%s' % (self.name, mode), nontrivial=users > 0)
            ctx.obs('mode_' + mode)
            try:
                self.mode(mode, direct, ars, memb, so)
            except Bad as e:
                ctx.violation('%s-%s' % (mode, self.name), 'mode %s: %s' % (mode, e.args[0]), dict({n + '.c': t for n, t in self.srcs.items()}, **{'commands.txt': '\n'.join(self.log) + '\n'}))
        shutil.rmtree(self.dir)

    def must(self, cmd):
        q = self.sh(cmd)
        if q.rc: raise core.HarnessError('%s: %s' % (' '.join(cmd), q.etext[:300]))

    def obj(self, m):
        if m not in self.cobj:
            q = self.sh([self.b.cjit, '-C-fcommon', '-c', m + '.c', '-o', m + '.c.o'])
            if q.rc or not os.path.exists(os.path.join(self.dir, m + '.c.o')): raise Bad('cjit -c refuses a valid module %s: %s' % (m, q.etext[-200:]))
            self.cobj[m] = 1
        return m + '.c.o'

    def archives(self, ars, memb, by):
        out = []
        for a in ars:
            if by == 'gcc':
                out.append('g%s.a' % a)
                continue
            n = 'c%s.a' % a
            if not os.path.exists(os.path.join(self.dir, n)):
                objs = [self.obj(m) for m in memb[a]]
                q = self.sh([self.b.cjit, '-ar', 'rcs', n] + objs)
                if q.rc: raise Bad('cjit -ar: ' + q.etext[:200])
            out.append(n)
        return out

    def mode(self, mode, direct, ars, memb, so):
        r = self.r
        cm = r.choice([['-C-fcommon'], ['-C-fcommon'], []])
        if mode in ('src', 'exe'): words = [m + '.c' for m in direct]
        elif mode == 'gobj': words = [m + '.g.o' for m in direct]
        else: words = [self.obj(m) for m in direct]
        by = r.choice(['gcc', 'cjit', 'cjit']) if mode != 'link' else 'cjit'
        lib = self.archives(ars, memb, by) + so
        if mode in ('src', 'obj', 'gobj'):
            res = self.sh([self.b.cjit, '-q'] + cm + words + lib)
            txt = res.etext
        else:
            e = 'e_' + mode
            if mode == 'link': q = self.sh(['gcc', '-o', e] + words + lib + [self.c.libtcc1])
            else: q = self.sh([self.b.cjit, '-q'] + cm + ['-o', e] + words + lib)
            txt = q.etext
            if q.rc == 0:
                if not os.path.exists(os.path.join(self.dir, e)): raise Bad('status 0 but no executable: ' + q.etext[-200:])
                res = self.sh(['./' + e])
            else: res = q
        ran = b'start' in res.out
        if self.refused is not None:
            if ran: raise Bad('runs although the link has to be refused (%s of %s)' % ('/'.join(self.kinds), ', '.join(sorted(self.refused))))
            if res.rc == 0: raise Bad('status 0 although the link has to be refused')
            if not any(n in txt for n in self.refused): raise Bad('the refusal names none of %s: %s' % (sorted(self.refused), txt[-200:]))
            self.ctx.obs('refusals_compared')
            return
        if not ran: raise Bad('is refused or does not run: status %s, %s' % (res.rc, res.etext[-300:]))
        self.ctx.obs('bindings_compared', res.out.count(b'\n'))
        if res.out != self.ref.out:
            for x, y in zip(self.ref.out.split(b'\n') + [b'<end>'], res.out.split(b'\n') + [b'<end>']):
                if x != y: raise Bad('prints "%s" instead of "%s"' % (y.decode('latin1')[:90], x.decode('latin1')[:90]))
        if res.rc != self.ref.rc: raise Bad('status %s instead of %s' % (res.rc, self.ref.rc))


class Bad(Exception):
    pass


class Check:
    def __init__(self, ctx):
        self.ctx = ctx
        self.b = build.build(ctx, 'plain')
        self.b.warm()
        self.dir = ctx.sub('graphs')
        self.libtcc1 = os.path.join(run([self.b.cjit, '-q', '--xass'], env=self.b.env()).text.strip(), 'libtcc1.a')
        if not os.path.exists(self.libtcc1): raise core.HarnessError('no libtcc1.a')


# specific inputs: (name, files, cjit words after building what is needed)
P = 'int printf(const char *, ...);\n'
CORPUS = {
    'zero_twice': ({'a.c': P + 'int x = 0;\nint main(void) { printf("start\\n"); return 0; }\n', 'b.c': 'int x = 0;\n'}, [], 'refuse'),
    'zero_twice_sys': ({'a.c': P + 'int x = 0;\nint main(void) { printf("start\\n"); return 0; }\n', 'b.c': 'int x = 0;\n'}, [], 'refuse'),
    'hidden_twice': ({'a.c': P + 'int f(void) { return 1; }\nint main(void) { printf("start %d\\n", f()); return 0; }\n', 'b.c': '__attribute__((visibility("hidden"))) int f(void) { return 2; }\n'}, [], 'refuse'),
    'lib_before_libc': ({'a.c': P + 'int rand(void);\nint main(void) { printf("start %d\\n", rand()); return 0; }\n'}, 'int rand(void) { return 42; }\n', b'start 42\n'),
    'initialised_twice': ({'a.c': P + 'int x = 1;\nint main(void) { printf("start\\n"); return 0; }\n', 'b.c': 'int x = 1;\n'}, [], 'refuse'),
    'hidden_tentative': ({'a.c': P + '__attribute__((visibility("hidden"))) int x;\nint *bx(void);\nint main(void) { printf("start %d %d\\n", x, bx() == &x); return 0; }\n', 'b.c': 'int x = 42;\nint *bx(void) { return &x; }\n'}, [], b'start 42 1\n'),
    'hidden_first_twice': ({'a.c': P + '__attribute__((visibility("hidden"))) int f(void) { return 1; }\nint main(void) { printf("start %d\\n", f()); return 0; }\n', 'b.c': 'int f(void) { return 2; }\n'}, [], 'refuse'),
    'section_tentative': ({'a.c': P + 'int x;\nint main(void) { printf("start %d\\n", x); return 0; }\n', 'b.c': '__attribute__((section(".mine"))) int x = 42;\n'}, [], b'start 42\n'),
    'section_tentative_after': ({'b.c': '__attribute__((section(".mine"))) int x = 42;\n', 'a.c': P + 'int x;\nint main(void) { printf("start %d\\n", x); return 0; }\n'}, [], b'start 42\n'),
    'lib_own': ({'a.c': P + 'int own_(void);\nint main(void) { printf("start %d\\n", own_()); return 0; }\n'}, 'int own_(void) { return 42; }\n', b'start 42\n'),
}


def corpus(c):
    ctx = c.ctx
    for n, (files, lib, want) in CORPUS.items():
        d = ctx.sub('corpus_' + n)
        for f, t in files.items(): open(os.path.join(d, f), 'w').write(t)
        words = list(files)
        if n.endswith('_sys'):
            for f in files:
                if run(['gcc', '-w', '-fno-common', '-fPIC', '-c', f], cwd=d).rc: raise core.HarnessError('corpus ' + n)
            words = [f[:-1] + 'o' for f in files]
        if lib:
            open(os.path.join(d, 'l.c'), 'w').write(lib)
            q = run(['gcc', '-w', '-shared', '-fPIC', '-o', 'libz.so', 'l.c'], cwd=d)
            if q.rc: raise core.HarnessError('corpus: ' + q.etext[:200])
            words.append('libz.so')
        for mode in ('mem', 'exe'):
            if mode == 'mem': r = run_wd([c.b.cjit, '-q'] + words, cwd=d, env=c.b.env())
            else:
                r = run_wd([c.b.cjit, '-q', '-o', 'e'] + words, cwd=d, env=c.b.env())
                if r.rc == 0 and os.path.exists(os.path.join(d, 'e')): r = run_wd(['./e'], cwd=d, env=dict(os.environ, LD_LIBRARY_PATH=d))
            ctx.case('corpus-%s-%s' % (n, mode))
            if want == 'refuse': bad = r.rc == 0 or b'start' in r.out
            else: bad = r.out != want
            if bad: ctx.violation('corpus-%s-%s' % (n, mode), '%s: status %s, prints %r instead of %r' % (n, r.rc, r.out[:80], want), files)


def check(ctx):
    c = Check(ctx)
    corpus(c)
    core.pmap(lambda k: Case(c, k).run(), range(ctx.n(300, 6000)))
