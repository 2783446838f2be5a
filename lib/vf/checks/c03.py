"""C03: layout of types and initialisers."""
import os, glob
from .. import core, build
from ..diffc import Diff
from ..gen import initgen, layoutgen

RULE = ('A case is one program declaring several random types. Layout programs print size, alignment, offsets and, for every scalar and bit-field member, the bytes of '
        'the whole object after storing all-ones into zeroed and zero into all-ones storage, values read back, compound assignments, copies. Initialiser programs '
        'initialise random nested aggregates (braces elided or not, nested/anonymous/range designators, overriding, strings, unsized arrays, compound literals) as '
        'static, global and automatic objects on a dirtied stack and print every leaf. Oracle: the system compiler (gcc, confirmed by clang and sanitizers on a '
        'difference). Non-trivial: prints more than one value.')
ASSUMPTIONS = ['gcc and clang define the platform ABI', 'automatic objects aligned beyond 16 bytes and 64 bits wide bit-fields at odd bit positions of packed types '
               'are not claimed (the compiler documents or diagnoses them)']
CORPUS = os.path.join(core.VERIF, 'corpus', 'c03')
FEATS = [('plain', ()), ('alignas', ('alignas',)), ('pack', ('pack',)), ('attr', ('attr', 'alignas'))]


def check(ctx):
    b = build.build(ctx, 'plain')
    b.warm()
    d = Diff(ctx, b)
    jobs = []
    for k in range(ctx.n(550, 9000)):
        jobs.append(('init-%d' % k, lambda k=k: initgen.program(ctx.rand('init', k))))
    for nm, f in FEATS:
        for k in range(ctx.n(130, 2500)):
            jobs.append(('layout-%s-%d' % (nm, k), lambda k=k, nm=nm, f=f: layoutgen.program(ctx.rand('layout', nm, k), 4, f)))
    for f in sorted(glob.glob(os.path.join(CORPUS, '*.c'))):
        jobs.append(('corpus-' + os.path.basename(f)[:-2], f))
    ctx.rand('order').shuffle(jobs)

    def one(job):
        name, g = job
        r = d.case(name, path=g) if isinstance(g, str) else d.case(name, text=g())
        ctx.obs('%s_%s' % ('_'.join(name.split('-')[:-1]), r))
        return r
    res = core.pmap(one, jobs)
    bad = sum(r in ('unusable', 'disputed') for r in res)
    if bad > max(12, len(res) // 25):
        raise core.HarnessError('too many programs without a usable reference: %d of %d' % (bad, len(res)))
