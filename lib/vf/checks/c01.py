"""C01: executed programs mean what the C standard says."""
import os, glob
from .. import core, build
from ..diffc import Diff
from ..gen import cgen, opmatrix

RULE = ('A case is one program run by cjit from memory, compared on its printed values and exit status with the native build of the same source. '
        'Operator x type-pair matrices (every binary/compound/unary operator over boundary values, as constants and as variables, in value, condition and '
        'assignment contexts), random statement programs that are free of undefined behaviour by construction (interval analysis), and feature programs '
        '(control flow, VLA, strings, structs by value, builtins, alloca/goto/statement expressions, register pressure). A difference counts only when '
        'gcc -O2 and clang agree with gcc -O0 and an ASan/UBSan run is silent. Non-trivial: prints more than one value.')
ASSUMPTIONS = ['gcc and clang agreeing on a sanitizer-silent program is what the standard prescribes']

TYPES = cgen.INTS
CORPUS = os.path.join(core.VERIF, 'corpus', 'c01')


def check(ctx):
    b = build.build(ctx, 'plain')
    b.warm()
    d = Diff(ctx, b)
    jobs = []
    for i, t1 in enumerate(TYPES):
        jobs.append(('unary-%d' % i, lambda t1=t1, i=i: opmatrix.unary_program(ctx.rand('u', i), t1)[0]))
        for j, t2 in enumerate(TYPES):
            jobs.append(('pair-%d-%d' % (i, j), lambda t1=t1, t2=t2, i=i, j=j: opmatrix.pair_program(ctx.rand('p', i, j), t1, t2)[0]))
    if not ctx.quick:
        for k in range(1, 6):
            for i, t1 in enumerate(TYPES):
                for j, t2 in enumerate(TYPES):
                    jobs.append(('pair%d-%d-%d' % (k, i, j), lambda t1=t1, t2=t2, i=i, j=j, k=k: opmatrix.pair_program(ctx.rand('p', i, j, k), t1, t2)[0]))
    for k in range(ctx.n(500, 16000)):
        def gen(k=k):
            r = ctx.rand('prog', k)
            return cgen.program(r)[0]
        jobs.append(('prog-%d' % k, gen))
    feats = sorted(glob.glob(os.path.join(CORPUS, '*.c')))
    if len(feats) < 8:
        raise core.HarnessError('feature corpus missing')
    for s in range(ctx.n(4, 40)):
        for f in feats:
            jobs.append((os.path.basename(f)[:-2] + '-%d' % s, (f, s)))
    # longest first is not known; interleave
    ctx.rand('order').shuffle(jobs)

    def one(job):
        name, g = job
        kind = name.split('-')[0]
        if isinstance(g, tuple):
            r = d.case(name, path=g[0], flags=['-DSEED=%d' % (ctx.seed * 1000 + g[1])])
        else:
            src = g()
            if kind == 'prog':
                ctx.obs('random_program_bytes', len(src))
            r = d.case(name, text=src)
        ctx.obs('%s_%s' % ('feature' if isinstance(g, tuple) else kind.rstrip('0123456789'), r))
        return r
    res = core.pmap(one, jobs)
    bad = sum(r in ('unusable', 'disputed') for r in res)
    if bad > max(10, len(res) // 50):
        raise core.HarnessError('too many programs without a usable reference: %d of %d' % (bad, len(res)))
