"""C10 library search: generated directory trees (links, linker scripts, search orders,
system directories) against a model; every candidate library carries its own identity."""
import os, re, shutil
from .. import core, build

RULE = ('A case is one generated tree of library directories (-L list, working directory, configured system directories), one list of -l names and one '
        'program that calls a function of every library the model says is available; the numbers it prints identify the copies that were taken. Non-trivial: '
        'at least one name has candidates in more than one place, or goes through a link or linker script.')
ASSUMPTIONS = ['linker scripts use INPUT, GROUP, AS_NEEDED, OUTPUT_FORMAT, TARGET, comments, commas, plain names and -l entries; quoted names and semicolons are not generated',
               'a directory or dangling link with the name of the library does not count as having it']

NAMES = ['a', 'bb', 'stdc++x', 'a.b', 'c-d', 'X11_x', '7z', 'e' * 60, 'lib', 'sox', 'so', 'm1', 'gl', 'zz9', 'tcc1x', '_u', 'Q', 'ncursesw6', 'f' * 120, 'k']


class Pool:
    """shared objects with identities, built on demand"""
    def __init__(self, ctx):
        self.d = ctx.sub('pool')
        self.have = {}

    def prepare(self, keys):
        def mk(k):
            sym, ident, so = k
            if so == 2:
                o = os.path.join(self.d, 'o%d_%d.o' % (sym, ident))
                p = os.path.join(self.d, 'a%d_%d.a' % (sym, ident))
                r = core.run(['gcc', '-c', '-fPIC', '-x', 'c', '-', '-o', o], input=b'int where_%d(void) { return %d; }\n' % (sym, ident))
                if r.rc or core.run(['ar', 'rcs', p, o]).rc:
                    raise core.HarnessError('archive')
                return k, p
            p = os.path.join(self.d, 'w%d_%d_%d.so' % k)
            r = core.run(['gcc', '-shared', '-fPIC', '-nostdlib', '-x', 'c', '-', '-o', p] + (['-Wl,-soname,libid%d-%d.so' % (sym, ident)] if so else []),
                         input=b'int where_%d(void) { return %d; }\n' % (sym, ident))
            if r.rc:
                raise core.HarnessError('gcc -shared: ' + r.etext)
            return k, p
        for k, p in core.pmap(mk, keys):
            self.have[k] = p


class Case:
    def __init__(self, ctx, pool, rng, base, big):
        self.rng, self.pool, self.base = rng, pool, base
        self.nid = 0
        self.links = self.scripts = self.shadow = 0
        os.makedirs(base)
        nL = rng.randrange(0, 5) if not big else rng.randrange(20, 45)
        self.L = []
        for i in range(nL):
            d = os.path.join(base, rng.choice(['L%d', 'sub/L%d', 'deep/er/L%d', 'dir with %d space', 'l-%d.so', 'x' * 50 + '%d']) % i)
            os.makedirs(d)
            self.L.append(d)
        self.cwd = os.path.join(base, 'work')
        os.makedirs(self.cwd)
        self.S = []
        for i in range(rng.randrange(0, 4)):
            d = os.path.join(base, 'sys', 's%d' % i)
            os.makedirs(d)
            self.S.append(d)
        self.other = os.path.join(base, 'other')
        os.makedirs(self.other)
        self.order = self.L + [self.cwd] + self.S
        names = rng.sample(NAMES, rng.randrange(1, 6)) if not big else ['n%d' % i for i in range(70)]
        self.names = names
        self.provs = ['p%d' % i for i in range(8)]
        self.tree = {}                           # (dir, filename) -> ('elf', sym, id) | ('script', items) | None (unusable)
        self.idx = {n: i for i, n in enumerate(names)}
        for i, p in enumerate(self.provs):
            self.idx[p] = 40 + i
        for p in self.provs:
            for d in self.order:
                if rng.random() < .25:
                    self.place(d, 'lib%s.so' % p, p, 1 if rng.random() < .5 and p > 'p3' else 0)
                if rng.random() < .15:
                    self.place(d, 'lib%s.so.3' % p, p, False)
        for n in names:
            for d in self.order:
                if rng.random() < (.35 if not big else .06):
                    self.place(d, 'lib%s.so' % n, n, 2)

    def elf(self, path, name):
        k = (self.idx[name], self.nid % 5, self.rng.randrange(2))
        if self.idx[name] >= 48 or self.idx[name] < 0:
            raise core.HarnessError('idx')
        self.nid += 1
        os.makedirs(os.path.dirname(path), exist_ok=True)
        if k not in self.pool.have:
            self.pool.prepare([k])
        shutil.copyfile(self.pool.have[k], path)
        return ('elf', k[0], k[1], os.path.realpath(path), k[2])

    def place(self, d, fn, name, scripts):
        rng = self.rng
        p = os.path.join(d, fn)
        kind = rng.choice(['elf', 'elf', 'rel', 'abs', 'chain', 'dirlink', 'dangling', 'dir', 'loop', 'updir'] + (['script'] * 5 if scripts else []))
        u = 'u%d' % self.nid
        self.nid += 1
        r = None
        if kind == 'elf':
            r = self.elf(p, name)
        elif kind == 'rel':
            r = self.elf(os.path.join(d, fn + '.1.' + u), name)
            os.symlink(fn + '.1.' + u, p)
        elif kind == 'updir':
            r = self.elf(os.path.join(self.other, u, fn), name)
            os.symlink(os.path.relpath(os.path.join(self.other, u, fn), d), p)
        elif kind == 'abs':
            r = self.elf(os.path.join(self.other, u, 'real-' + fn), name)
            os.symlink(os.path.join(self.other, u, 'real-' + fn), p)
        elif kind == 'chain':
            r = self.elf(os.path.join(self.other, u, fn + '.1.2.3'), name)
            os.symlink(fn + '.1.2.3', os.path.join(self.other, u, fn + '.1'))
            os.symlink(os.path.join(self.other, u, fn + '.1'), os.path.join(d, fn + '.' + u))
            os.symlink(fn + '.' + u, p)
        elif kind == 'dirlink':
            r = self.elf(os.path.join(self.other, u, 'in', fn), name)
            os.symlink(os.path.join(self.other, u), os.path.join(d, 'dl' + u))
            os.symlink('dl%s/in/%s' % (u, fn), p)
        elif kind == 'dangling':
            os.symlink(rng.choice(['nowhere', '/nonexistent/' + fn, '../' * 3 + 'x/y']), p)
        elif kind == 'loop':
            os.symlink(fn, p)
        elif kind == 'dir':
            os.mkdir(p)
        elif kind == 'script':
            r = self.script(d, p, name, scripts)
            self.scripts += 1
        if kind in ('rel', 'abs', 'chain', 'dirlink', 'updir'):
            self.links += 1
        self.tree[(d, fn)] = r
        return r

    def script(self, d, p, name, level):
        rng = self.rng
        items, text = [], []

        def ws():
            if rng.random() < .12:
                return ' /*' + ''.join(rng.choice(['*', '*', ' ', '(', ',', ')', 'x', '/ ', '-', '\n']) for _ in range(rng.randrange(6))).replace('*/', '* /') + '*/ '
            return rng.choice([' ', ' ', '  ', '\n', '\t', ' /* c */ ', '\r\n', ' /* -lzz, GROUP ( x ) * / ** */ ', '\n\n'])

        def item():
            k = rng.choice(['abs', 'abs', 'rel', 'lib', 'lib', 'missing', 'archive'])
            if k == 'archive':
                key = (rng.randrange(50, 54), rng.randrange(3), 2)
                q = os.path.join(self.other, rng.choice(['lib%d_nonshared.a', 'x%d', 'lib%d.so.a']) % self.nid)
                self.nid += 1
                shutil.copyfile(self.pool.have[key], q)
                items.append(('file', ('elf', key[0], key[1], q, 2)))
                return q
            pr = rng.choice(self.provs[:4] if level == 1 else self.provs)
            if k == 'abs':
                e = self.elf(os.path.join(self.other, *(['x' * rng.randrange(40, 120), 'y' * rng.randrange(30, 120)] if rng.random() < .2 else []), 'u%d' % self.nid, rng.choice(['lib%s.so', 'lib%s.so.6', '%s_nolib', '%s-1.0+x~y.so', '_%s=$.so']) % pr), pr)
                items.append(('file', e))
                q = e[3]
                if rng.random() < .3:
                    q = os.path.join(self.other, 'ln%d' % self.nid)
                    os.symlink(e[3], q)
                return q
            if k == 'rel':
                fn = 'lib%s.so.3' % pr
                items.append(('search', fn))
                return fn
            if k == 'lib':
                items.append(('search', 'lib%s.so' % pr))
                return '-l' + pr
            fn = rng.choice(['libgone%d.so', '/nonexistent/libgone%d.so', '-lgone%d']) % rng.randrange(100)
            items.append(('gone', re.sub('^-l(.*)', r'lib\1.so', fn)))
            return fn

        def lst(depth):
            out = []
            for i in range(rng.randrange(1, 4)):
                if depth == 0 and rng.random() < .3:
                    out.append('AS_NEEDED' + ws() + '(' + ws() + lst(1) + ws() + ')')
                else:
                    out.append(item())
            return rng.choice([ws(), ws(), ' , ', ',', ', ']).join(out)
        if rng.random() < .6:
            text.append(rng.choice(['/* GNU ld script%s */', '/* GNU ld script%s*/']) % rng.choice(['', '*', ' **', '\n   Use the shared library, but some functions are only in\n   the static library, so try that secondarily. ', ' ****', '*']))
        if rng.random() < .6:
            text.append('OUTPUT_FORMAT%s(%self64-x86-64%s)' % (ws(), rng.choice([' ', '']), rng.choice([' ', '', ' , elf64-x86-64'])))
        if rng.random() < .2:
            text.append('TARGET(elf64-x86-64)')
        for i in range(rng.choice([1, 1, 2])):
            text.append(rng.choice(['INPUT', 'GROUP']) + ws() + '(' + ws() + lst(0) + ws() + ')')
        s = rng.choice(['', '\n', ' ']) + rng.choice(['\n', ws()]).join(text) + rng.choice(['\n', '', '\n\n', ' /* end */'])
        with open(p, 'w', newline='') as f:
            f.write(s)
        return ('script', items, s)

    # ---- the model -----------------------------------------------------------
    def resolve(self, fn):
        n = 0
        hit = None
        for d in self.order:
            if (d, fn) in self.tree:
                n += 1
                if hit is None and self.tree[(d, fn)]:
                    hit = self.tree[(d, fn)]
        if n > 1:
            self.shadow += 1
        return hit

    def expect(self):
        loaded, missing = [], []

        def add(r):
            if r[0] == 'elf':
                loaded.append(r)
                return
            for k, v in r[1]:
                if k == 'file':
                    loaded.append(v)
                elif k == 'gone':
                    missing.append(v)
                else:
                    e = self.resolve(v)
                    if e is None:
                        missing.append(v)
                    else:
                        add(e)
        for n in self.names:
            r = self.resolve('lib%s.so' % n)
            if r is None:
                missing.append('lib%s.so' % n)
            else:
                add(r)
        first = {}
        for e in loaded:
            first.setdefault(e[1], e)
        return loaded, missing, first


def conf(rng, dirs):
    """an ld.so.conf text and a list of files of ld.so.conf.d that configure dirs in this order"""
    def fmt(ds):
        o = []
        for d in ds:
            if rng.random() < .4:
                o.append(rng.choice(['# comment', '', '# /not/this', '   ', '\t# x']))
            o.append(rng.choice(['', '', '', ' ', '\t']) + d + rng.choice(['', '', '', '/', ' ', '\t', '  # local', ' \t']))
        return '\n'.join(o) + (rng.choice(['\n', '', '\n\n# end\n']) if o else '')
    k = rng.randrange(len(dirs) + 1) if rng.random() < .3 else 0
    main = fmt(dirs[:k])
    if main and not main.endswith('\n'):
        main += '\n'
    main += 'include /etc/ld.so.conf.d/*.conf\n'
    rest, files, i = dirs[k:], [], 0
    while rest:
        n = rng.randrange(1, len(rest) + 1)
        files.append(('%s%d.conf' % (rng.choice('ab'[:1] * 3), 10 + i), fmt(rest[:n])))
        rest = rest[n:]
        i += 1
    return main, files


def check(ctx):
    b = build.build(ctx, 'plain')
    a = build.build(ctx, 'asan')
    pool = Pool(ctx)
    pool.prepare([(i, k, so) for i in list(range(6)) + list(range(40, 48)) for k in range(5) for so in (0, 1)] + [(i, k, 2) for i in range(50, 54) for k in range(3)])
    ns = core.run(['unshare', '-Urm', 'sh', '-c', 'mount --bind /etc /mnt && echo yes'])
    ns = ns.text.strip() == 'yes'
    if not ns:
        ctx.note('no mount namespace here: configured system directories are not varied')

    def one(j):
        rng = ctx.rand('case', j)
        base = os.path.join(ctx.dir, 'case%d' % j)
        big = j % 25 == 24
        if big:
            NB = rng.randrange(30, 38)
        c = Case(ctx, pool, rng, base, False) if not big else Case(ctx, pool, rng, base, False)
        if big:
            # many directories and many missing names around the growth of the lists
            for i in range(NB):
                d = os.path.join(base, 'many%d' % i)
                os.makedirs(d)
                c.L.insert(rng.randrange(len(c.L) + 1), d)
            c.order = c.L + [c.cwd] + c.S
            c.names += ['nothere%d' % i for i in range(NB)]
            rng.shuffle(c.names)
        if not ns:
            # system directories become -L directories at the end, behind the working directory
            c.order = c.L + [c.cwd]
        loaded, missing, first = c.expect()
        syms = sorted(first)
        prog = '#include <stdio.h>\n' + ''.join('extern int where_%d(void);\n' % s for s in syms) + \
               'int main(void) { %s printf("end\\n"); return 7; }\n' % ' '.join('printf("%d:%%d\\n", where_%d());' % (s, s) for s in syms)
        want = ''.join('%d:%d\n' % (s, first[s][2]) for s in syms) + 'end\n'
        with open(os.path.join(c.cwd, 'p.c'), 'w') as f:
            f.write(prog)
        args = []
        for d in c.L:
            q = rng.choice([d, d + '/', os.path.relpath(d, c.cwd), './' + os.path.relpath(d, c.cwd), os.path.join(c.cwd, os.path.relpath(d, c.cwd))])
            args.append('-L' + q)
        args += ['-l' + n for n in c.names]
        src = ['p.c']
        cut = rng.choice([0, len(args), len(args)])
        args = args[:cut] + src + args[cut:]
        mode = rng.choice(['mem', 'mem', 'exe'])
        bb = a if rng.random() < .2 else b
        env = bb.env()
        pre = []
        if ns:
            main, files = conf(rng, c.S)
            cd = os.path.join(base, 'conf.d')
            os.makedirs(cd)
            with open(os.path.join(base, 'ld.so.conf'), 'w') as f:
                f.write(main)
            for n, t in files:
                p = os.path.join(cd, n)
                if rng.random() < .2:
                    with open(os.path.join(base, 'real-' + n), 'w') as f:
                        f.write(t)
                    os.symlink(os.path.join(base, 'real-' + n), p)
                else:
                    with open(p, 'w') as f:
                        f.write(t)
            pre = ['unshare', '-Urm', 'sh', '-c', 'mount --bind "$0/ld.so.conf" /etc/ld.so.conf && mount --bind "$0/conf.d" /etc/ld.so.conf.d && exec "$@"', base]
        key = 'case-%d' % j
        desc = 'order: %s\nnames: %s\ntree:\n%s\n' % (' '.join(c.order), ' '.join(c.names), '\n'.join('%s/%s %s' % (k[0], k[1], v) for k, v in sorted(c.tree.items())))
        fl = {'p.c': prog, 'tree.txt': desc}

        def bad(what, r):
            ctx.violation(key, '%s\nargs %s\n%s\nexpected:\n%s\nstderr: %s\ngot: %s' % (what, ' '.join(args), desc[-1500:], want, r.etext[-800:], r.text[-500:]),
                          dict(fl, **{'out.txt': r.out, 'err.txt': r.err, 'args.txt': ' '.join(args)}))
        if mode == 'mem':
            r = core.run_wd(pre + [bb.cjit] + args, timeout=20, env=env, cwd=c.cwd)
        else:
            r = core.run_wd(pre + [bb.cjit, '-o', 'x.out'] + args, timeout=20, env=env, cwd=c.cwd)
        rep = core.san_report(r.err)
        if rep:
            bad('sanitizer: ' + rep, r)
        elif r.timeout:
            bad('hang', r)
        elif mode == 'mem' and (r.rc != 7 or r.text != want):
            bad('wrong libraries in memory', r)
        elif mode == 'exe':
            x = os.path.join(c.cwd, 'x.out')
            if r.rc != 0 or not os.path.exists(x):
                bad('no executable', r)
            else:
                need = re.findall(r'NEEDED.*\[(.*?)\]', core.run(['readelf', '-dW', x]).text)
                got = [n for n in need if not re.match(r'libc\.so\.6|ld-linux|libgcc_s', n)]
                exp = []
                for e in loaded:
                    if e[4] == 2:
                        continue
                    n = 'libid%d-%d.so' % (e[1], e[2]) if e[4] else None
                    if n not in exp:                  # a library named twice appears once
                        exp.append(n)
                noname = sum(1 for e in loaded if not e[4])
                if [n for n in got if n.startswith('libid')] != [n for n in exp if n] or len([n for n in got if not n.startswith('libid')]) > noname or (noname and len(got) < len(exp)):
                    bad('needed libraries %s, expected %s' % (got, exp), r)
                else:
                    ctx.obs('executables_inspected')
        for m in missing:
            m = os.path.basename(m)
            if m not in r.etext:
                bad('missing library %s is not named' % m, r)
                break
        ctx.case(key, nontrivial=c.shadow + c.links + c.scripts > 0)
        ctx.obs('libraries_resolved', len(loaded))
        ctx.obs('missing_reported', len(missing))
        ctx.obs('links', c.links)
        ctx.obs('scripts', c.scripts)
        ctx.obs('shadowed_names', c.shadow)
        for e in loaded:
            ctx.distinct('search_position', next((i for i, d in enumerate(c.order) if e[3].startswith(d + '/')), 'elsewhere'))
        if j < 3:
            ctx.sample({'args': args, 'printed': r.text[:300], 'missing': missing[:4]})
        shutil.rmtree(base, ignore_errors=True)
    core.pmap(one, range(ctx.n(450, 6000)))
