"""C07: every way of building and running a program behaves the same."""
import os, re, glob, shutil
from .. import core, build, elfcheck
from ..core import run, run_wd
from ..gen import linkgen

RULE = ('A case is one (program, mode) execution: a generated multi-module program built and run in one of the modes (memory, permuted, standard input, objects, '
        'mixed, archive by cjit -ar and by ar, -o from sources/objects/archives/libraries, -g, relocatable merge and link by the system linker, system-compiled objects, '
        'shared objects by the bundled tcc and by the system, dlopen, stripped/copied by binutils), its output and exit status compared with the native build of the same '
        'modules in the same order; every ELF file written passes a structural validator and readelf/objdump/nm without complaint. Non-trivial: more than three output lines.')
ASSUMPTIONS = ['archives and shared objects may change the order of constructors, destructors and address-dependent output only',
               'shared objects are made by the bundled tcc -shared: the cjit command ignores -shared']

ARGS = ['x', 'y z']
CORPUS = os.path.join(core.VERIF, 'corpus', 'c07')


def norm(out, loose):
    ls = out.split(b'\n')
    if loose:
        o = [b'ord ' + bytes(sorted(l[4:])) if l.startswith(b'ord ') else l for l in ls]
        e = sorted(l for l in o if l.startswith((b'dtor ', b'atexit ')))
        ls = [l for l in o if not l.startswith((b'dtor ', b'atexit '))] + e
    return b'\n'.join(ls)


def errlines(e):
    return sorted(l for l in e.split(b'\n') if l.startswith(b'E: '))


class Prog:
    def __init__(self, chk, name, srcs, lib):
        self.c, self.name, self.srcs, self.lib = chk, name, srcs, lib
        self.ctx, self.b = chk.ctx, chk.b
        self.dir = os.path.join(chk.dir, name)
        os.makedirs(self.dir)
        for n, t in srcs.items():
            self.write(n + '.c', t)
        self.mods = list(srcs)
        self.refs = {}
        self.made = {}
        self.log = []
        self.gcc_done = False

    def write(self, n, t):
        with open(os.path.join(self.dir, n), 'w') as f:
            f.write(t)

    def sh(self, cmd, timeout=60, wd=False, **kw):
        self.log.append(' '.join(cmd))
        env = dict(self.b.env(), VF_ENV='in the environment')
        if wd: return run_wd(cmd, timeout=timeout, cwd=self.dir, env=env, **kw)
        return run(cmd, timeout=timeout, cwd=self.dir, env=env, **kw)

    def need(self, cmd, what):
        """A step of the system's tools that has to work."""
        r = self.sh(cmd)
        if r.rc != 0:
            raise core.HarnessError('%s: %s: %s' % (self.name, what, r.etext[-400:]))
        return r

    def cj(self, *args, **kw):
        r = self.sh([self.b.cjit] + list(args), wd=True, **kw)
        return r

    def build_step(self, key, args, out):
        """A cjit step that has to write `out`."""
        r = self.cj(*args)
        if r.timeout or r.rc != 0 or not os.path.exists(os.path.join(self.dir, out)):
            raise Bad('build', 'cjit %s: status %s, %s' % (' '.join(args), r.rc, r.etext.strip()[:200]))
        self.elf(out)

    def elf(self, path):
        p = os.path.join(self.dir, path)
        data = open(p, 'rb').read()
        if data[:4] != b'\x7fELF': return
        self.ctx.obs('elf_files_validated')
        pr = elfcheck.check(data)
        if pr: raise Bad('elf', '%s is not well-formed: %s' % (path, '; '.join(pr[:3])))
        if self.r.random() < .35:
            for t in (['readelf', '-aW'], ['objdump', '-dr'], ['nm']):
                r = self.sh(t + [path])
                txt = r.etext + '\n'.join(l for l in r.text.split('\n') if re.search(r'[Ww]arning:|[Ee]rror:|<corrupt', l))
                txt = '\n'.join(l for l in txt.split('\n') if 'no symbols' not in l)
                self.ctx.obs('binutils_runs')
                if r.rc != 0 or txt.strip():
                    raise Bad('elf', '%s complains about %s: %s' % (t[0], path, txt.strip()[:200]))

    # system objects and references
    def gobj(self, m, flags=()):
        o = '%s.g%s.o' % (m, re.sub(r'\W', '', ''.join(flags)))
        if o not in self.made:
            self.need(['gcc', '-w', '-c', *flags, m + '.c', '-o', o], 'reference compile')
            self.made[o] = 1
        return o

    def ref(self, order):
        k = tuple(order)
        if k not in self.refs:
            exe = 'ref%d' % len(self.refs)
            self.need(['gcc', '-w', '-o', exe] + [self.gobj(m) for m in order] + ['-lm'], 'reference link')
            r = self.sh(['./' + exe] + ARGS, wd=True)
            if r.timeout: raise core.HarnessError('reference does not end: ' + self.name)
            self.refs[k] = r
        return self.refs[k]

    def cobj(self, m, flags=()):
        o = '%s.c%s.o' % (m, re.sub(r'\W', '', ''.join(flags)))
        if o not in self.made:
            self.build_step('c', [*flags, '-c', m + '.c', '-o', o], o)
            self.made[o] = 1
        return o

    def compare(self, mode, r, order, loose=False, native=False):
        ref = self.ref(order)
        want = -ref.rc if ref.rc < 0 else ref.rc
        got = -r.rc if native and r.rc < 0 else r.rc
        lines = ref.out.count(b'\n')
        self.ctx.case('%s/%s' % (self.name, mode), nontrivial=lines > 3)
        self.ctx.obs('mode_' + mode.split(':')[0])
        self.ctx.obs('output_lines_compared', lines)
        self.ctx.distinct('end', want)
        if r.timeout: raise Bad('run', 'runs on without end')
        a, b = norm(ref.out, loose), norm(r.out, loose)
        if a != b:
            for x, y in zip(a.split(b'\n') + [b'<end>'], b.split(b'\n') + [b'<end>']):
                if x != y: raise Bad('output', 'prints "%s" instead of "%s" (%s)' % (y.decode('latin1')[:90], x.decode('latin1')[:90], r.etext.strip()[-160:].replace('\n', ' | ')))
        if got != want: raise Bad('status', 'ends with status %s instead of %s (%s)' % (got, want, r.etext.strip()[-160:].replace('\n', ' | ')))
        if errlines(ref.err) != errlines(r.err): raise Bad('stderr', 'standard error differs')


class Bad(Exception):
    def __init__(self, kind, msg):
        self.kind, self.msg = kind, msg


# ---- the modes: functions of (program, random) ------------------------------
def shuf(r, l):
    l = list(l)
    r.shuffle(l)
    return l


def m_mem(p, r):
    o = shuf(r, p.mods)
    # -g has a handler of its own for signals
    fl = r.choice([[], ['-q'], ['-g'], [] if p.end in ('segv', 'abort', 'sig') else ['-C-g'], ['-q', '-C', '-O2'], ['-DUNUSED=1', '-I', '.'], ['--verb']])
    pre = r.randrange(len(o) + 1)
    words = [m + '.c' for m in o]
    r.choice([lambda: words.insert(pre, '-lm'), lambda: words.append('-lm')])()
    fl2 = fl if r.random() < .7 else []
    res = p.cj(*(fl2 + words + ([] if fl2 else fl)), '--', *ARGS)
    p.compare('mem', res, o)


def m_stdin(p, r):
    o = shuf(r, p.mods)
    k = r.choice(o)
    res = p.cj(*[('-' if m == k else r.choice(['', './']) + m + '.c') for m in o], '-lm', '--', *ARGS, input=p.srcs[k].encode())
    p.compare('stdin', res, o)


def m_obj(p, r):
    o = shuf(r, p.mods)
    fl = r.choice([(), ('-g',), ('-C-g',)])
    res = p.cj('-q', *[p.cobj(m, fl) for m in o], '-lm', '--', *ARGS)
    p.compare('obj', res, o)


def m_mix(p, r):
    o = shuf(r, p.mods)
    res = p.cj('-q', *[(p.cobj(m) if r.random() < .5 else m + '.c') for m in o], '-lm', '--', *ARGS)
    p.compare('mix', res, o)


def m_objdef(p, r):
    """-c without -o writes NAME.o into the working directory"""
    o = shuf(r, p.mods)
    sub = 'sub%d' % r.randrange(10 ** 6)
    os.mkdir(os.path.join(p.dir, sub))
    names = {}
    for m in o:
        # only the last extension is replaced
        names[m] = n = r.choice(['%s', '%s', '%s.tab', '.%s', '%s.c', 'a.o.%s', '%s-1.2', 'x y.%s', '%s.']) % m
        ext = r.choice(['c', 'c', 'C', 'cc', 'cxx'])
        if n != m or ext != 'c': shutil.copy(os.path.join(p.dir, m + '.c'), os.path.join(p.dir, n + '.' + ext))
        q = run_wd([p.b.cjit, '-c', r.choice(['../', os.path.join(p.dir, '')]) + n + '.' + ext], cwd=os.path.join(p.dir, sub), env=p.b.env(), timeout=30)
        if q.rc != 0 or not os.path.exists(os.path.join(p.dir, sub, n + '.o')):
            raise Bad('build', 'cjit -c ../%s.%s writes no %s.o: %s' % (n, ext, n, q.etext[:150]))
    res = p.cj('-q', *['%s/%s.o' % (sub, names[m]) for m in o], '-lm', '--', *ARGS)
    p.compare('objdef', res, o)


def runexe(p, r, exe, mode, o, loose=False):
    env = {}
    for k in range(1):
        p.log.append('./%s' % exe)
        res = run_wd([os.path.join(p.dir, exe)] + ARGS, cwd=p.dir, timeout=20, env=dict(p.b.env(), VF_ENV='in the environment', LD_LIBRARY_PATH=p.dir))
        p.compare(mode, res, o, loose, native=True)


def m_exe(p, r):
    o = shuf(r, p.mods)
    e = 'e%d' % r.randrange(10 ** 6)
    fl = r.choice([[], ['-q'], ['-g'], ['-C-g'], ['-C-rdynamic'], ['-C-Wl,-Bsymbolic'], ['-C-Wl,--export-all-symbols'] if False else ['-q']])
    words = [m + '.c' for m in o] + ['-lm']
    w = r.choice([fl + ['-o', e] + words, words + ['-o', e] + fl, fl + words[:1] + ['-o' + e] + words[1:]])
    p.build_step('exe', w, e)
    runexe(p, r, e, 'exe', o)
    if r.random() < .4:
        # copies by the system's tools behave the same
        for t, mode in ((['strip', '-o'], 'strip'), (['objcopy'], 'objcopy')):
            q = e + '.' + mode
            cmd = t + ([q, e] if mode == 'strip' else [e, q])
            z = p.sh(cmd)
            if z.rc: raise Bad('elf', '%s fails on %s: %s' % (mode, e, z.etext[:200]))
            runexe(p, r, q, mode, o)


def m_exeobj(p, r):
    o = shuf(r, p.mods)
    e = 'o%d' % r.randrange(10 ** 6)
    fl = r.choice([(), ('-g',)])
    p.build_step('exe', ['-o', e] + [(p.cobj(m, fl) if r.random() < .7 else m + '.c') for m in o] + ['-lm'], e)
    runexe(p, r, e, 'exeobj', o)


def m_exestdin(p, r):
    o = shuf(r, p.mods)
    k = r.choice(o)
    e = 's%d' % r.randrange(10 ** 6)
    q = p.cj('-o', e, *[('-' if m == k else m + '.c') for m in o], '-lm', input=p.srcs[k].encode())
    if q.rc != 0 or not os.path.exists(os.path.join(p.dir, e)): raise Bad('build', '-o with standard input: %s %s' % (q.rc, q.etext[:150]))
    p.elf(e)
    runexe(p, r, e, 'exestdin', o)


def archive(p, r, objs, name):
    how = r.choice(['cjit', 'cjit', 'ar'])
    objs = shuf(r, objs)
    if how == 'cjit':
        q = p.cj('-ar', r.choice(['rcs', 'rc', 'cr', 'crs']), name, *objs)
        if q.rc != 0 or not os.path.exists(os.path.join(p.dir, name)): raise Bad('build', 'cjit -ar: %s %s' % (q.rc, q.etext[:150]))
    else:
        p.need(['ar', 'rcs', name] + objs, 'ar')
    return how


def m_ar(p, r):
    ms = [m for m in p.mods if m != 'main']
    inside = [m for m in ms if r.random() < .7] or ms
    # the rest is given before the archives
    out = shuf(r, [m for m in p.mods if m not in inside])
    n = 'lib%d.a' % r.randrange(10 ** 6)
    how = archive(p, r, [p.cobj(m) for m in inside], n)
    o = out + inside
    words = [(p.cobj(m) if r.random() < .5 else m + '.c') for m in out] + [n, '-lm']
    k = r.randrange(3)
    if k == 0:
        p.compare('ar', p.cj('-q', *words, '--', *ARGS), o, loose=True)
    elif k == 1:
        e = 'a%d' % r.randrange(10 ** 6)
        p.build_step('exe', ['-o', e] + words, e)
        runexe(p, r, e, 'arexe', o, loose=True)
    else:
        e = 'l%d' % r.randrange(10 ** 6)
        z = p.sh(['gcc', '-w', '-o', e] + [p.cobj(m) for m in out] + [n, '-lm', p.c.libtcc1()])
        if z.rc: raise Bad('link', 'the system linker refuses an archive of cjit objects: ' + z.etext[:200])
        runexe(p, r, e, 'arlink', o, loose=True)


def m_link(p, r):
    o = shuf(r, p.mods)
    e = 'l%d' % r.randrange(10 ** 6)
    fl = r.choice([(), ('-g',)])
    objs = [(p.cobj(m, fl) if r.random() < .8 else p.gobj(m)) for m in o]
    lf = r.choice([[], ['-no-pie'], ['-fuse-ld=gold'], ['-Wl,-z,noexecstack'], ['-static'], ['-Wl,--gc-sections']])
    z = p.sh(['gcc', '-w', '-o', e] + lf + objs + ['-lm', p.c.libtcc1()])
    if z.rc: raise Bad('link', 'the system linker refuses cjit objects: ' + z.etext[-250:])
    runexe(p, r, e, 'link', o)


def m_ldr(p, r):
    o = shuf(r, p.mods)
    e = 'r%d.o' % r.randrange(10 ** 6)
    z = p.sh(['ld', '-r', '-o', e] + [p.cobj(m) for m in o])
    if z.rc: raise Bad('link', 'ld -r refuses cjit objects: ' + z.etext[:200])
    if r.random() < .5:
        p.compare('ldr', p.cj('-q', e, '-lm', '--', *ARGS), o)
    else:
        p.build_step('exe', ['-o', e + 'x', e, '-lm'], e + 'x')
        runexe(p, r, e + 'x', 'ldrexe', o)


def m_copyobj(p, r):
    o = shuf(r, p.mods)
    objs = []
    for m in o:
        q = p.cobj(m, r.choice([(), ('-g',)]))
        t = r.choice([['strip', '-g', '-o'], ['objcopy'], ['objcopy', '--strip-unneeded'], ['objcopy', '-g']])
        d = 'k%d.o' % r.randrange(10 ** 6)
        z = p.sh(t + ([d, q] if t[0] == 'strip' else [q, d]))
        if z.rc: raise Bad('elf', '%s fails on %s: %s' % (t[0], q, z.etext[:200]))
        objs.append(d)
    p.compare('copyobj', p.cj('-q', *objs, '-lm', '--', *ARGS), o)


# only position-independent code can be linked into memory: see the known finding
GP = [('-fPIC',), ('-O1', '-fPIC'), ('-O2', '-fPIC'), ('-ffunction-sections', '-fdata-sections', '-fPIC'), ('-fno-plt', '-fPIC', '-O2'), ('-g', '-fPIC', '-Os'), ('-O3', '-fPIC', '-fcommon')]
GF = GP + [(), ('-O2',), ('-O1', '-fPIC'), ('-fno-pic',), ('-Os', '-fno-pic'), ('-ffunction-sections', '-fdata-sections', '-fPIC'), ('-fno-common', '-fPIE', '-O3'), ('-fcommon',), ('-fno-plt', '-fPIC', '-O2'), ('-g', '-O1')]


def m_gobj(p, r):
    """objects of the system compiler linked by cjit"""
    o = shuf(r, p.mods)
    mem = r.random() < .5
    GF_ = GP if mem else GF
    fl = r.choice(GF_)
    if r.random() < .3:
        # each with flags of its own
        objs = [(p.gobj(m, r.choice(GF_)) if r.random() < .7 else m + '.c') for m in o]
    else:
        objs = [(p.gobj(m, fl) if r.random() < .7 else m + '.c') for m in o]
    if mem:
        p.compare('gobj', p.cj('-q', *objs, '-lm', '--', *ARGS), o)
    else:
        e = 'g%d' % r.randrange(10 ** 6)
        p.build_step('exe', ['-o', e] + objs + ['-lm'], e)
        runexe(p, r, e, 'gobjexe', o)


def solib(p, r, how):
    n = 'lib%s%d.so' % (how, r.randrange(10 ** 6))
    if how == 'tcc':
        q = p.sh(p.b.tcc + ['-shared', '-o', n] + [m + '.c' for m in p.lib] + ['-lm'])
        if q.rc or not os.path.exists(os.path.join(p.dir, n)): raise Bad('build', 'tcc -shared: ' + q.etext[:200])
        p.elf(n)
    else:
        p.need(['gcc', '-w', '-shared', '-fPIC', '-o', n] + [m + '.c' for m in p.lib] + ['-lm'], 'gcc -shared')
    return n


def m_so(p, r):
    how = r.choice(['tcc', 'tcc', 'gcc'])
    n = solib(p, r, how)
    rest = shuf(r, [m for m in p.mods if m not in p.lib])
    o = rest + p.lib
    words = [(p.cobj(m) if r.random() < .4 else m + '.c') for m in rest]
    k = r.randrange(4)
    if k == 3:
        if how != 'tcc': k = 1
    link = r.choice([[n], ['./' + n], ['-L.', '-l' + n[3:-3]], ['-L', p.dir, '-l' + n[3:-3]], [os.path.join(p.dir, n)]])
    if k == 0:
        p.compare('so%s' % how, p.cj('-q', *words, *link, '-lm', '--', *ARGS), o, loose=True)
    elif k == 3:
        # system compiler's program with a library of tcc
        e = 'x%d' % r.randrange(10 ** 6)
        z = p.sh(['gcc', '-w', '-o', e] + r.choice([[], ['-no-pie', '-fno-pic']]) + [m + '.c' for m in rest] + [n, '-lm'])
        if z.rc: raise Bad('link', 'the system linker refuses a shared object of tcc: ' + z.etext[:200])
        runexe(p, r, e, 'solink', o, loose=True)
    else:
        e = 'x%d' % r.randrange(10 ** 6)
        p.build_step('exe', ['-o', e] + words + link + ['-lm'], e)
        runexe(p, r, e, 'so%sexe' % how, o, loose=True)


HOST = r'''#include <stdio.h>
#include <dlfcn.h>
int main(int argc, char **argv) {
    int i;
    void *h = dlopen(argv[1], %s);
    if (!h) { printf("dlopen: %%s\n", dlerror()); return 3; }
    printf("ord %%s\n", (char *)dlsym(h, "ord_"));
    for (i = 2; i < argc; i++) {
        void (*f)(void) = (void (*)(void))dlsym(h, argv[i]);
        if (!f) { printf("no %%s\n", argv[i]); return 4; }
        f();
    }
    printf("%%d\n", *(int *)dlsym(h, "ordn_"));
    return %d;
}
'''


def m_dlopen(p, r):
    n = solib(p, r, 'tcc')
    g = solib(p, r, 'gcc')
    rc = r.randrange(200)
    text = HOST % (r.choice(['RTLD_NOW', 'RTLD_LAZY', 'RTLD_NOW | RTLD_GLOBAL']), rc)
    p.write('host.c', text)
    if 'host' not in p.made:
        p.need(['gcc', '-w', '-o', 'host', 'host.c', '-ldl'], 'host')
    pr = ['probe_%s' % m[1:] for m in p.lib]
    ref = p.sh(['./host', './' + g] + pr, wd=True)
    if r.random() < .5:
        res = p.sh(['./host', './' + n] + pr, wd=True)
        mode = 'dlopen'
    else:
        lib = r.choice([n, g])
        res = p.cj('-q', 'host.c', '-ldl', '--', './' + lib, *pr)
        mode = 'dlopenmem'
    p.ctx.case('%s/%s' % (p.name, mode), nontrivial=ref.out.count(b'\n') > 3)
    p.ctx.obs('mode_' + mode)
    a, b = norm(ref.out, True), norm(res.out, True)
    if a != b or ref.rc != res.rc:
        for x, y in zip(a.split(b'\n') + [b'<end>'], b.split(b'\n') + [b'<end>']):
            if x != y: raise Bad('output', 'prints "%s" instead of "%s"' % (y.decode('latin1')[:90], x.decode('latin1')[:90]))
        raise Bad('status', 'status %s instead of %s: %s' % (res.rc, ref.rc, res.etext[:100]))


def m_one(p, r):
    """the whole program as one text: by file of any C extension, by pipe, by -"""
    if len(p.mods) != 1: return
    m = p.mods[0]
    k = r.randrange(7)
    text = p.srcs[m].encode()
    if k == 0: res = p.cj('-q', '-lm', input=text); noargs = True
    elif k == 1: res = p.cj('-lm', '-', '--', *ARGS, input=text); noargs = False
    elif k == 2:
        n = r.choice(['x.C', 'x.cc', 'x.CC', 'x.cxx', 'x.cXx', 'x.y.c', '.c', 'a b.c', '-dash.c'])
        p.write(n, p.srcs[m])
        res = p.cj('-q', '-lm', ('./' if n[0] == '-' else '') + n, '--', *ARGS); noargs = False
    elif k == 3:
        # a FIFO-like source: /dev/stdin by name has no C extension, so a link to it
        with open(os.path.join(p.dir, m + '.c')) as f:
            res = p.cj('-q', '-lm', '-', '--', *ARGS, stdin=f); noargs = False
    elif k == 4:
        n = r.choice(['y.C', 'y.cc', 'y.cxx', 'y.c'])
        p.write(n, p.srcs[m])
        p.build_step('c', ['-c', n, '-o', 'y.o'], 'y.o')
        res = p.cj('-q', 'y.o', '-lm', '--', *ARGS); noargs = False
    elif k == 5:
        res = p.cj('-q', '-lm', '--', *ARGS, input=text); noargs = False
    else:
        e = 'p%d' % r.randrange(10 ** 6)
        q = p.cj('-o', e, '-lm', input=text)
        if q.rc: raise Bad('build', '-o %s with the source on standard input: %s' % (e, q.etext[:150]))
        p.elf(e)
        return runexe(p, r, e, 'oneexe', p.mods)
    if noargs:
        ref = p.ref(p.mods)
        if not res.out.startswith(b'argc 1'): raise Bad('output', 'argc without arguments: %r %s' % (res.out[:20], res.etext[:100]))
        res.out = res.out.replace(b'argc 11\n', b'argc 3 [x] [y z]1\n', 1)
    p.compare('one:%d' % k, res, p.mods)


MODES = {'mem': m_mem, 'stdin': m_stdin, 'obj': m_obj, 'mix': m_mix, 'objdef': m_objdef, 'exe': m_exe, 'exeobj': m_exeobj, 'exestdin': m_exestdin,
         'ar': m_ar, 'link': m_link, 'ldr': m_ldr, 'copyobj': m_copyobj, 'gobj': m_gobj, 'so': m_so, 'dlopen': m_dlopen}


class Check:
    def __init__(self, ctx):
        self.ctx = ctx
        self.b = build.build(ctx, 'plain')
        self.b.warm()
        self.dir = ctx.sub('modes')
        self.rt = run([self.b.cjit, '-q', '--xass'], env=self.b.env()).text.strip()
        if not os.path.exists(self.libtcc1()): raise core.HarnessError('no libtcc1.a in ' + self.rt)

    def libtcc1(self):
        return os.path.join(self.rt, 'libtcc1.a')

    def one(self, k):
        ctx = self.ctx
        r = ctx.rand('prog', k)
        single = k % 6 == 5
        srcs, lib, g = linkgen.program(r, **({'nmods': 1} if single else {}))
        if single:
            body = srcs['m0'][len(linkgen.HEAD):]
            srcs, lib = {'main': srcs['main'] + body}, []
        p = Prog(self, 'p%d' % k, srcs, lib)
        p.end = g.end
        ctx.obs('programs')
        ctx.obs('source_bytes', sum(map(len, srcs.values())))
        ctx.distinct('modules', len(srcs))
        if single:
            modes = [('one', m_one)] * 4 + [(n, MODES[n]) for n in ('exe', 'obj', 'link', 'gobj')]
        else:
            modes = list(MODES.items())
            if ctx.quick:
                modes = r.sample(modes, 9)
        for n, f in modes:
            p.r = r
            p.log = []
            try:
                f(p, r)
            except Bad as e:
                self.report(p, n, e)
        shutil.rmtree(p.dir)

    def report(self, p, mode, e):
        ctx = self.ctx
        files = {n + '.c': t for n, t in p.srcs.items()}
        files['commands.txt'] = '\n'.join(p.log) + '\n'
        ctx.violation('%s-%s-%s' % (mode, e.kind, p.name), 'mode %s of %s: %s' % (mode, p.name, e.msg), files)


def corpus(c):
    """specific inputs: system objects whose code is not position-independent"""
    ctx, d = c.ctx, c.ctx.sub('corpus')
    for f in sorted(os.listdir(CORPUS)):
        n = f[:-2]
        for fl in (['-fPIC'], ['-fPIE', '-O1'], ['-fno-pic', '-O1']):
            o = os.path.join(d, n + fl[0] + '.o')
            ref = run(['gcc', '-w', *fl, '-c', os.path.join(CORPUS, f), '-o', o])
            if ref.rc: raise core.HarnessError('corpus: ' + ref.etext[:200])
            ref = run(['gcc', '-w', '-o', o + 'x', o] + (['-no-pie'] if 'no' in fl[0] else []))
            ref = run([o + 'x'])
            for mode in ('mem', 'exe'):
                if mode == 'mem': r = run_wd([c.b.cjit, '-q', o], env=c.b.env())
                else:
                    q = run([c.b.cjit, '-q', '-o', o + 'y', o], env=c.b.env())
                    r = run_wd([o + 'y']) if q.rc == 0 else q
                ctx.case('corpus-%s%s-%s' % (n, fl[0], mode))
                if (r.rc, r.out) != (ref.rc, ref.out):
                    ctx.violation('corpus-%s%s-%s' % (n, fl[0], mode), 'object made by gcc %s ends with %s and prints %r instead of %s and %r' % (' '.join(fl), r.rc, r.out[:60], ref.rc, ref.out[:60]), {f: open(os.path.join(CORPUS, f)).read()})


def check(ctx):
    c = Check(ctx)
    corpus(c)
    core.pmap(c.one, range(ctx.n(140, 2500)))
