"""C02: floating-point values, operations and conversions."""
from .. import core, build
from ..diffc import Diff
from ..gen import fpgen

RULE = ('A case is one generated program run by cjit, every result printed as its bit pattern (NaN as such) and compared with gcc -O0; confirmed against gcc -O2 and clang. '
        'Operators x {float, double, long double, integers} over special, boundary, near-halfway and random bit patterns, each as variables, as constants, mixed and as static '
        'initialisers, in value/condition/compound-assignment contexts; conversions between every floating and integer type within range; decimal and hexadecimal literals '
        '(exact halfway points, up to 500 digits, all suffixes); compound expressions through calls, members and arrays.')
ASSUMPTIONS = ['gcc and clang agreeing define the correctly rounded result', 'the payload and sign of NaN are not observed', 'default rounding mode']

KINDS = {'arith': fpgen.arith, 'conv': fpgen.conv, 'literals': fpgen.literals, 'mixed': fpgen.mixed}


def check(ctx):
    b = build.build(ctx, 'plain')
    b.warm()
    d = Diff(ctx, b, flags=())
    jobs = []
    for k, n in (('arith', ctx.n(160, 4000)), ('conv', ctx.n(120, 3000)), ('literals', ctx.n(60, 1500)), ('mixed', ctx.n(100, 2500))):
        jobs += [(k, i) for i in range(n)]
    ctx.rand('order').shuffle(jobs)

    def one(j):
        k, i = j
        src = KINDS[k](ctx.rand(k, i))
        r = d.case('%s-%d' % (k, i), text=src)
        ctx.obs('%s_%s' % (k, r))
        return r
    res = core.pmap(one, jobs)
    bad = sum(r in ('unusable', 'disputed') for r in res)
    if bad > max(10, len(res) // 20):
        raise core.HarnessError('too many programs without a usable reference: %d of %d' % (bad, len(res)))
