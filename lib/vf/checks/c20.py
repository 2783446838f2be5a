"""C20 bounds-checked programs: valid ones behave as without checking, planted invalid accesses are stopped at their line."""
import os, re, glob, shutil
from .. import core, build
from ..gen import memgen, cgen, initgen, layoutgen

CORPUS = os.path.join(core.VERIF, 'corpus', 'c20')
RULE = ('A case is one generated program run with bounds checking (in memory or as an executable, with and without debug tables). Valid programs over every kind of object (local, static, '
        'global, heap from malloc/calloc/realloc/memalign, alloca, variable length, parameters, members, matrices) and all pointer idioms must print and return exactly what they do without checking and '
        'report nothing. Programs with one planted invalid access (element or pointer past either end, library function over the end, freed block) must print everything in front of it, nothing behind it, '
        'exit with 255 and report the file, line and function of the access. Non-trivial: the program printed values (valid), or the plant was reached (planted).')
ASSUMPTIONS = ['compound literals have no bounds of their own', 'a block moved by realloc is not remembered as freed; blocks are recognised as freed for the checker\'s list of the last hundred',
               'programs do not depend on values of addresses', 'an access inside the same enclosing object is not an overflow (members of one structure)']


def check(ctx):
    b = build.build(ctx, 'plain')
    b.warm()
    env = dict(b.env(), LC_ALL='C')
    T, cj = b.tcc, [b.cjit]

    def ways(d, src, rng, prog):
        dbg = rng.choice(['', '', ' -g', ' -gdwarf-4', ' -bt10'])
        l = [('cjit memory', None, lambda c: cj + (['-C' + ('-b' + dbg if c else '-w')]) + ['-q', src]),
             ('tcc memory', None, lambda c: T + (['-b'] + dbg.split() if c else []) + ['-run', src]),
             ('tcc exe', lambda c: T + (['-b'] + dbg.split() if c else []) + ['-o', prog + str(c), src], lambda c: [prog + str(c)]),
             ('cjit exe', lambda c: cj + (['-C' + ('-b' + dbg if c else '-w')]) + ['-q', '-o', prog + str(c), src], lambda c: [prog + str(c)]),
             ('objects', lambda c: T + (['-b'] + dbg.split() if c else []) + ['-c', '-o', prog + '.%d.o' % c, src], lambda c: [prog + str(c)])]
        w = l[rng.choice([0, 0, 1, 1, 2, 2, 3, 4])]
        return w, dbg

    def go(w, c, d, prog, dbg):
        if w[1]:
            r = core.run(w[1](c), cwd=d, env=env, timeout=60)
            if r.rc:
                return r
            if w[0] == 'objects':
                r = core.run(T + (['-b'] + dbg.split() if c else []) + ['-o', prog + str(c), prog + '.%d.o' % c, '-lm', '-lpthread'], cwd=d, env=env, timeout=60)
                if r.rc:
                    return r
        return core.run_wd(w[2](c), cwd=d, env=env, timeout=15)

    def noise(t):
        return [l for l in t.split('\n') if l and 'warning:' not in l]

    def quiet(job):
        name, text = job
        rng = ctx.rand('quiet', name)
        if callable(text):
            text = text()
        d = ctx.sub(name.replace('/', '_'))
        src = os.path.join(d, 'p.c')
        prog = os.path.join(d, 'prog')
        with open(src, 'w') as f:
            f.write(text)
        w, dbg = ways(d, src, rng, prog)
        r0, r1 = go(w, 0, d, prog, dbg), go(w, 1, d, prog, dbg)
        ctx.case(name, nontrivial=r0.out.count(b'\n') > 1)
        ctx.obs('valid_programs')
        ctx.obs('lines_compared', r0.out.count(b'\n'))
        ctx.distinct('ways', w[0] + dbg)
        if (r0.rc, r0.out) != (r1.rc, r1.out) or r1.timeout != r0.timeout or len(noise(r1.etext)) > len(noise(r0.etext)):
            # an alarm only for programs that are really valid
            exe = os.path.join(d, 'ref')
            g = core.run(['gcc', '-w', '-g', '-fsanitize=address,undefined', '-fno-sanitize=alignment', '-fno-sanitize-recover=undefined', '-o', exe, src, '-lm', '-lpthread'], timeout=120)
            if g.rc == 0:
                g = core.run([exe], timeout=60, env=dict(env, ASAN_OPTIONS='detect_leaks=0'))
            if g.rc != r0.rc or g.out != r0.out or core.san_report(g.err):
                ctx.obs('reference_disputed')
            elif not r0.timeout:
                # twice, to leave out what is not the checking's doing
                if (go(w, 0, d, prog, dbg).out, go(w, 0, d, prog, dbg).rc) == (r0.out, r0.rc):
                    ctx.violation(name, '%s%s: with -b exit %s instead of %s; %s' % (w[0], dbg, r1.rc, r0.rc, (noise(r1.etext) or ['other output: ' + first(r0.text, r1.text)])[0][:200]),
                                  {'program.c': text, 'normal.txt': r0.text, 'checked.txt': r1.text + r1.etext})
        shutil.rmtree(d, ignore_errors=True)

    def first(a, c):
        for x, y in zip(a.split('\n'), c.split('\n')):
            if x != y:
                return '%r instead of %r' % (y[:60], x[:60])
        return 'other length'

    def loud(k):
        rng = ctx.rand('loud', k)
        text, plant, info, how = memgen.program(rng, True)
        name = 'plant-%d' % k
        d = ctx.sub(name)
        src = os.path.join(d, 'p.c')
        prog = os.path.join(d, 'prog')
        with open(src, 'w') as f:
            f.write(text)
        w, dbg = ways(d, src, rng, prog)
        r = go(w, 1, d, prog, dbg)
        reached = 'before ' in r.text
        ctx.case(name, nontrivial=reached)
        ctx.obs('plants')
        ctx.distinct('plant_kinds', '%s %s' % (how, info[0]))
        what = '%s of a %s object (%s[%d]) at line %d in %s, %s%s' % (how, info[0], info[1], info[2], plant[0], plant[1], w[0], dbg)
        msg = None
        m = [x for x in (re.match(r'(.*):(\d+): at (\w+): (BCHECK: |RUNTIME ERROR: )', l) for l in noise(r.etext)) if x]
        rep = [l for l in noise(r.etext) if ': at ' in l]
        start = noise(r.etext)[0] if noise(r.etext) else ''
        if 'dwarf' in dbg:
            # the checker's own frames (built with the other kind of tables) stand in front, without a position
            m = [x for x in (re.match(r'(.*):(\d+): (?:at|by) (\w+)(: |$)', l) for l in noise(r.etext)) if x]
            start = ([l for l in noise(r.etext) if not l.startswith('0x')] or [''])[0]
        if not reached:
            msg = '%s: exit %s before the access: %s' % (what, r.rc, (noise(r.etext) or [''])[0][:200])
        elif 'after ' in r.text:
            msg = '%s: not caught' % what
        elif not rep:
            msg = '%s: stopped (exit %s) without a report' % (what, r.rc)
        elif not m or (os.path.basename(m[0].group(1)), int(m[0].group(2)), m[0].group(3)) != ('p.c', plant[0], plant[1]) or not start.startswith(m[0].group(0)):
            msg = '%s: reported as %r' % (what, rep[0][:160])
        elif r.rc != 255:
            msg = '%s: exit status %s' % (what, r.rc)
        if not msg and m:
            ctx.obs('reports_%s' % m[0].group(4).split(':')[0].replace(' ', '_'))
        if msg:
            ctx.violation(name, msg, {'program.c': text, 'out.txt': r.text + '\n' + r.etext})
        shutil.rmtree(d, ignore_errors=True)

    if os.environ.get('VF_ONLY'):
        loud(int(os.environ['VF_ONLY']))
        return
    core.pmap(loud, range(ctx.n(900, 30000)))
    jobs = [('mem-%d' % k, lambda k=k: memgen.program(ctx.rand('mem', k), False)[0]) for k in range(ctx.n(350, 9000))]
    jobs += [('init-%d' % k, lambda k=k: initgen.program(ctx.rand('init', k))) for k in range(ctx.n(60, 2000))]
    jobs += [('layout-%d' % k, lambda k=k: layoutgen.program(ctx.rand('layout', k), 4, ('attr', 'pack'))) for k in range(ctx.n(40, 1000))]
    jobs += [('code-%d' % k, lambda k=k: cgen.program(ctx.rand('code', k))[0]) for k in range(ctx.n(100, 3000))]
    for f in sorted(glob.glob(os.path.join(CORPUS, '*.c'))):
        for k in range(4):
            jobs.append(('corpus-%s-%d' % (os.path.basename(f)[:-2], k), open(f).read()))
    core.pmap(quiet, jobs)
