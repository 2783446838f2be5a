"""Differential execution of one well-defined C program: the system compiler
against cjit. A difference only counts when two further reference builds agree
with the first one and sanitized execution is silent."""
import os, re
from . import core
from .core import run, run_wd


def reference(cmd_flags, src, exe, cc='gcc', opt='-O0', timeout=60, libs=()):
    r = run([cc, '-w', opt, '-o', exe] + list(cmd_flags) + [src] + list(libs) + ['-lm'], timeout=timeout)
    return r


def execute(exe, timeout=10, args=()):
    return run_wd([exe] + list(args), timeout=timeout)


def sig(r):
    return (r.rc, r.out)


class Diff:
    def __init__(self, ctx, b, flags=(), cjit_flags=(), std=(), ignore_rc=False, keyprefix=''):
        self.ctx, self.b = ctx, b
        self.flags, self.cjit_flags = list(flags), list(cjit_flags)
        self.dir = ctx.sub('diff')
        self.keyprefix = keyprefix
        self.env = b.env()

    def cjit(self, src, flags=(), timeout=10):
        return run_wd([self.b.cjit] + self.cjit_flags + self.flags + list(flags) + [src], timeout=timeout, env=self.env)

    def case(self, name, text=None, path=None, flags=(), what='program', nontrivial=True):
        """Returns 'ok', 'unusable', 'disputed' or 'violation'."""
        ctx = self.ctx
        base = os.path.join(self.dir, name.replace('/', '_'))
        src = path
        if src is None:
            src = base + '.c'
            with open(src, 'w') as f:
                f.write(text)
        made = []
        fl = self.flags + list(flags)
        try:
            ref = None
            for cc in ('gcc', 'clang'):
                exe = base + '.ref'
                made.append(exe)
                r = reference(fl, src, exe, cc)
                if r.rc == 0:
                    ref = execute(exe)
                    break
            if ref is None or ref.timeout:
                ctx.obs('reference_unusable')
                return 'unusable'
            got = self.cjit(src, flags)
            ctx.case(name, nontrivial=nontrivial and ref.out.count(b'\n') > 1)
            ctx.obs('values_compared', ref.out.count(b'\n'))
            ctx.obs('programs')
            if sig(got) == sig(ref) and not got.timeout:
                return 'ok'
            # confirm
            others = [('gcc', '-O2', []), ('clang', '-O0', []), ('clang', '-O1', [])]
            for k, (cc, opt, x) in enumerate(others):
                exe = '%s.r%d' % (base, k)
                made.append(exe)
                if reference(fl + x, src, exe, cc, opt, 120).rc != 0:
                    continue
                o = execute(exe)
                if sig(o) != sig(ref):
                    ctx.obs('reference_disputed')
                    return 'disputed'
            exe = base + '.san'
            made.append(exe)
            r = reference(fl + ['-fsanitize=undefined,address', '-fno-sanitize=alignment', '-fno-sanitize-recover=undefined'], src, exe, 'gcc', '-O0', 120)
            if r.rc == 0:
                o = run([exe], timeout=60, env=dict(os.environ, ASAN_OPTIONS='detect_leaks=0'))
                if sig(o) != sig(ref) or core.san_report(o.err):
                    ctx.obs('reference_disputed')
                    return 'disputed'
            got2 = self.cjit(src, flags, timeout=30)
            if sig(got2) == sig(ref):
                ctx.obs('not_reproduced')
                ctx.inconclusive('difference did not reproduce: ' + name)
                return 'disputed'
            d = first_diff(ref, got2)
            ctx.violation(self.keyprefix + name, '%s %s: %s' % (what, name, d), {
                name.replace('/', '_') + '.c': open(src, 'rb').read(),
                'expected.txt': ref.out, 'got.txt': got2.out, 'stderr.txt': got2.err,
                'cmd.txt': ('cjit %s %s.c   # against gcc -O0; expected exit %s, got %s\n' % (' '.join(self.cjit_flags + fl), name, ref.rc, got2.rc)).encode()})
            return 'violation'
        finally:
            for m in made:
                try:
                    os.unlink(m)
                except OSError:
                    pass
            if path is None:
                try:
                    os.unlink(src)
                except OSError:
                    pass


def first_diff(ref, got):
    if got.timeout:
        return 'runs on without end (reference ends with %s)' % ref.rc
    a, b = ref.out.split(b'\n'), got.out.split(b'\n')
    for x, y in zip(a, b):
        if x != y:
            return 'prints "%s" instead of "%s"' % (y.decode('latin1')[:120], x.decode('latin1')[:120])
    if got.rc != ref.rc:
        return 'ends with status %s instead of %s: %s' % (got.rc, ref.rc, got.etext[:200].replace('\n', ' | '))
    return 'prints %d lines instead of %d' % (len(b), len(a))
