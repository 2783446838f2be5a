"""C04: calls between cjit-compiled and natively compiled code agree."""
import os
from .. import core, build
from ..gen import abigen, cgen

RULE = ('A case is one generated pair of modules (ten functions of random signatures: every scalar type, structs and unions of every classification, up to 18 parameters, '
        'variadic functions with va_list handed on, calls through pointers, callbacks, VLA callers) built as caller x callee in {cjit, gcc -O0/-O2, clang -O2} and run; '
        'the printed arguments and results are compared with the all-native build. A native probe called from both modules checks stack alignment, MXCSR, x87 control word and direction flag '
        'at every call; a native driver keeps patterns in every callee-saved register around cjit functions and looks at the x87 stack. Non-trivial: native builds agree among themselves.')
ASSUMPTIONS = ['gcc and clang agreeing is the platform ABI', 'no _Complex, __int128, vector types or alignment above 16, which cjit lacks']


def check(ctx):
    b = build.build(ctx, 'plain')
    b.warm()
    env = b.env()
    nk = os.path.join(ctx.dir, 'nk.o')
    nkc = os.path.join(ctx.dir, 'nk.c')
    open(nkc, 'w').write(abigen.NK)
    core.run(['gcc', '-w', '-O1', '-fPIC', '-fno-omit-frame-pointer', '-c', '-o', nk, nkc])
    regs_c = os.path.join(ctx.dir, 'regs.c')
    open(regs_c, 'w').write(abigen.REGS)
    regs = os.path.join(ctx.dir, 'regs.o')
    r = core.run(['gcc', '-w', '-O0', '-fno-omit-frame-pointer', '-fno-pie', '-c', '-o', regs, regs_c])
    if r.rc or not os.path.exists(nk):
        raise core.HarnessError('native helper: ' + r.etext)
    stats = []

    def native(cc, opt, src, obj):
        # objects that cjit loads in memory need position-independent code
        return core.run([cc, '-w', opt, '-fPIC', '-fno-strict-aliasing', '-c', '-o', obj, src], timeout=60).rc == 0

    def one(i):
        rng = ctx.rand('abi', i)
        d = ctx.sub('p%d' % i)
        callee, caller = abigen.program(rng)
        cs, ms = os.path.join(d, 'callee.c'), os.path.join(d, 'caller.c')
        open(cs, 'w').write(callee)
        open(ms, 'w').write(caller)
        opt = rng.choice(['-O0', '-O1', '-O2'])
        o = {}
        for cc, op in (('gcc', opt), ('clang', '-O2')):
            for n, s in (('callee', cs), ('caller', ms)):
                o[cc, n] = os.path.join(d, '%s-%s.o' % (n, cc))
                if not native(cc, op, s, o[cc, n]):
                    ctx.obs('reference_unusable')
                    return 'unusable'
        ref = None
        for x, y in (('gcc', 'gcc'), ('clang', 'clang'), ('gcc', 'clang'), ('clang', 'gcc')):
            exe = os.path.join(d, 'ref')
            if core.run(['gcc', '-o', exe, o[x, 'callee'], o[y, 'caller'], nk]).rc:
                ctx.obs('reference_unusable')
                return 'unusable'
            r = core.run_wd([exe], timeout=10)
            s = (r.rc, r.out)
            if ref is None: ref = s
            elif ref != s:
                ctx.obs('reference_disputed')
                return 'disputed'
        co = {}
        for n, s in (('callee', cs), ('caller', ms)):
            co[n] = os.path.join(d, n + '-cjit.o')
            r = core.run_wd([b.cjit, '-q', '-c', s, '-o', co[n]], env=env)
            if r.rc or not os.path.exists(co[n]):
                ctx.violation('abi-%d/compile' % i, 'cjit -c fails: ' + r.brief(400), {'src.c': open(s).read()})
                return 'violation'
        runs = {
            'cjit calls gcc code': [b.cjit, '-q', ms, o['gcc', 'callee'], nk],
            'cjit calls clang code': [b.cjit, '-q', ms, o['clang', 'callee'], nk],
            'gcc calls cjit code (loaded by cjit)': [b.cjit, '-q', o['gcc', 'caller'], cs, nk],
            'cjit calls cjit code': [b.cjit, '-q', ms, cs, nk],
        }
        for x in ('gcc', 'clang'):
            for n, objs in (('%s calls cjit code' % x, [co['callee'], o[x, 'caller']]), ('cjit calls %s code, linked by gcc' % x, [o[x, 'callee'], co['caller']])):
                exe = os.path.join(d, n.replace(' ', '_').replace(',', ''))
                r = core.run(['gcc', '-o', exe] + objs + [nk, os.path.join(b.tccdir, 'libtcc1.a')])
                if r.rc:
                    ctx.violation('abi-%d/link' % i, 'linking %s fails: %s' % (n, r.etext[-500:]), {'callee.c': callee, 'caller.c': caller})
                    return 'violation'
                runs[n] = [exe]
        if ctx.quick and i % 2:
            for k in ('cjit calls cjit code', 'cjit calls clang code'): runs.pop(k)
        v = 'ok'
        for n, cmd in runs.items():
            r = core.run_wd(cmd, timeout=10, env=env)
            ctx.case((i, n), nontrivial=len(ref[1]) > 100)
            ctx.obs('lines_compared', ref[1].count(b'\n'))
            ctx.obs('runs: ' + n)
            if (r.rc, r.out) != ref:
                from ..diffc import first_diff
                class R: pass
                e = R()
                e.rc, e.out = ref
                ctx.violation('abi-%d/%s' % (i, n), '%s: %s' % (n, first_diff(e, r)), {'callee.c': callee, 'caller.c': caller, 'nk.c': abigen.NK, 'expected.txt': ref[1], 'got.txt': r.out, 'stderr.txt': r.err})
                v = 'violation'
        for f in os.listdir(d):
            os.unlink(os.path.join(d, f))
        return v

    def saved(i):
        """callee-saved registers around functions with loops, calls, floats and VLAs"""
        rng = ctx.rand('regs', i)
        d = ctx.sub('r%d' % i)
        fs, names = [], []
        for k in range(30):
            n = 'g%d' % k
            st = []
            for _ in range(rng.randrange(2, 7)):
                c = rng.randrange(12)
                q = rng.randrange(1, 50)
                st.append([
                    'x += y * %d;' % q,
                    'for (long i = 0; i < (y & 15); i++) x ^= x << 7 ^ i * %d;' % q,
                    'x = x / (y | 1) + x %% %d;' % (q + 1),
                    '{ long v[(y & 7) + 1]; v[y & 7] = x; x = v[y & 7] + %d; }' % q,
                    '{ double d = x & 255; d = d * %d.5 + y; x += (long)d; }' % q,
                    '{ long double d = x & 1023; if (d > %d) x += (long)(d / 4); else x -= (long)d; }' % q,
                    'x += h(y, %d, x & 31, 4, 5, 6, x & 7, 8.5);' % q,
                    'switch (x & 7) { case 0: x += %d; break; case 3: x ^= y; case 5: x--; break; default: x += 2; }' % q,
                    '{ struct { long a, b, c; } s = { x, y, %d }, t = s; x = t.a + t.b * t.c; }' % q,
                    'x = (x << (y & 31)) ^ (unsigned long)x >> %d;' % (q & 31),
                    '{ char b[64]; snprintf(b, sizeof b, "%%ld %%d %%f", x & 0xffff, %d, (double)(y & 15)); x += strlen(b) + b[1]; }' % q,
                    'x += (y > %d && h(1, 2, 3, 4, 5, 6, 7, 1.0) > 3 ? x & 3 : y || x);' % q][c])
            fs.append('long %s(long x, long y) { %s return x; }' % (n, ' '.join(st)))
            names.append(n)
        src = '#include <stdio.h>\n#include <string.h>\nlong h(long a, long b, long c, long d, long e, long f, long g, double k) { return a + b * c - d + e * f + g + (long)k; }\n' + '\n'.join(fs) + \
              '\nlong (*table[])(long, long) = { %s };\nint ntable = %d;\n' % (', '.join(names), len(names))
        s = os.path.join(d, 't.c')
        open(s, 'w').write(src)
        exe = os.path.join(d, 'ref')
        if core.run(['gcc', '-w', '-fwrapv', '-no-pie', '-o', exe, s, regs]).rc:
            ctx.obs('reference_unusable')
            return 'unusable'
        ref = core.run_wd([exe], timeout=10)
        obj = os.path.join(d, 't.o')
        core.run_wd([b.cjit, '-q', '-c', s, '-o', obj], env=env)
        exe2 = os.path.join(d, 'got')
        r = core.run(['gcc', '-w', '-no-pie', '-o', exe2, obj, regs, os.path.join(b.tccdir, 'libtcc1.a')])
        if r.rc:
            ctx.violation('regs-%d/link' % i, r.etext[-500:], {'t.c': src})
            return 'violation'
        got = core.run_wd([exe2], timeout=10)
        ctx.case(('regs', i))
        ctx.obs('functions_called_with_patterned_registers', len(names))
        if b'CHANGED' in ref.out or b'x87' in ref.out:
            raise core.HarnessError('register harness is wrong on native code')
        if (got.rc, got.out) != (ref.rc, ref.out):
            from ..diffc import first_diff
            ctx.violation('regs-%d' % i, first_diff(ref, got), {'t.c': src, 'regs.c': abigen.REGS})
            return 'violation'
        return 'ok'
    def junk(i):
        """rubbish in the bits a value does not use"""
        d = ctx.sub('j%d' % i)
        nat, cj, exp = abigen.junk(ctx.rand('junk', i))
        ns, cs = os.path.join(d, 'n.c'), os.path.join(d, 'c.c')
        open(ns, 'w').write(nat)
        open(cs, 'w').write(cj)
        no, gexe = os.path.join(d, 'n.o'), os.path.join(d, 'g')
        if not native('gcc', '-O1', ns, no):
            raise core.HarnessError('junk module does not compile')
        core.run(['gcc', '-w', '-O0', '-o', gexe, cs, no])
        g = core.run_wd([gexe], timeout=10)
        if g.text != exp:
            raise core.HarnessError('junk expectation differs from gcc: %r' % g.text[:300])
        r = core.run_wd([b.cjit, '-q', cs, no], timeout=10, env=env)
        ctx.case(('junk', i))
        ctx.obs('values_with_rubbish_above', exp.count('\n'))
        if r.rc or r.text != exp:
            from ..diffc import first_diff
            ctx.violation('junk-%d' % i, first_diff(g, r), {'native.c': nat, 'cjit.c': cj, 'expected.txt': exp, 'got.txt': r.out})
            return 'violation'
        return 'ok'

    def corpus(name):
        """hand-written pairs: built natively, then crossed"""
        d = ctx.sub('c-' + name)
        cs, ms = [os.path.join(core.VERIF, 'corpus', 'c04', '%s.%s.c' % (name, x)) for x in ('callee', 'caller')]
        o = {}
        for n, s in (('callee', cs), ('caller', ms)):
            o['gcc', n] = os.path.join(d, n + '-gcc.o')
            o['cjit', n] = os.path.join(d, n + '-cjit.o')
            if not native('gcc', '-O1', s, o['gcc', n]):
                raise core.HarnessError('corpus ' + name)
            core.run_wd([b.cjit, '-q', '-c', s, '-o', o['cjit', n]], env=env)
        out = {}
        for x, y in (('gcc', 'gcc'), ('gcc', 'cjit'), ('cjit', 'gcc'), ('cjit', 'cjit')):
            exe = os.path.join(d, x + y)
            r = core.run(['gcc', '-o', exe, o[x, 'callee'], o[y, 'caller'], os.path.join(b.tccdir, 'libtcc1.a')])
            r = core.run_wd([exe], timeout=10) if not r.rc else r
            out[x, y] = (r.rc, r.out)
            ctx.case(('corpus', name, x, y))
        if out['gcc', 'gcc'][0]:
            raise core.HarnessError('corpus ' + name)
        bad = [k for k in out if out[k] != out['gcc', 'gcc']]
        if bad:
            ctx.violation('corpus-' + name, 'callee by %s, caller by %s: %r instead of %r' % (bad[0] + (out[bad[0]], out['gcc', 'gcc'])), {'callee.c': open(cs).read(), 'caller.c': open(ms).read()})
        return 'ok'
    res = core.pmap(corpus, sorted({f.split('.')[0] for f in os.listdir(os.path.join(core.VERIF, 'corpus', 'c04'))}))
    res += core.pmap(junk, range(ctx.n(30, 400)))
    res += core.pmap(one, range(ctx.n(110, 2500)))
    res += core.pmap(saved, range(ctx.n(25, 400)))
    bad = sum(r in ('unusable', 'disputed') for r in res)
    if bad > max(5, len(res) // 10):
        raise core.HarnessError('too many programs without a usable reference: %d of %d' % (bad, len(res)))
