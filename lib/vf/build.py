"""Scratch builds of /repo's working tree."""
import os, shutil, stat
from . import core
from .core import run, HarnessError, REPO

SKIP_DIRS = {'.git', '_build', 'test', 'tests', 'docs', 'examples', '.github'}
SKIP_FILES = {'config.mak', 'config.h', 'tccdefs_.h', 'c2str.exe', 'tcc', 'cjit', 'cjit-ar', 'assets.c', 'assets.h'}

# excluded on purpose: alignment (x86 allows it and the compiler relies on it),
# shift and nonnull-attribute (memcpy(x, NULL, 0) and left shifts of negative
# constants in table code, without observable effect)
SAN = '-fsanitize=address,undefined -fno-sanitize=alignment,shift,nonnull-attribute,pointer-overflow'


def copy_sources(dst):
    os.makedirs(dst, exist_ok=True)
    for r, ds, fs in os.walk(REPO):
        rel = os.path.relpath(r, REPO)
        ds[:] = [d for d in ds if d not in SKIP_DIRS]
        os.makedirs(os.path.join(dst, rel), exist_ok=True)
        for f in fs:
            if f in SKIP_FILES and rel in ('.', 'src', 'lib/tinycc'):
                continue
            if f.endswith(('.o', '.a', '.so', '.exe')) or f.startswith('embed_') and rel == 'src':
                continue
            p = os.path.join(r, f)
            if not os.path.isfile(p):
                continue
            q = os.path.join(dst, rel, f)
            shutil.copyfile(p, q)
            shutil.copymode(p, q)


class Build:
    """A built tree: .cjit, .tcc (argv prefix), .top, .libtcc"""

    def __init__(self, ctx, kind):
        self.kind = kind
        self.top = os.path.join(ctx.dir, 'build-' + kind)
        self.version = 'vf%d%s%s' % (os.getpid(), kind, os.path.basename(ctx.dir).split('-')[-1])
        self.assets = '/tmp/cjit-' + self.version
        ctx.paths.append(self.assets)
        ctx.paths.append(self.assets + '.lock')
        copy_sources(self.top)
        env = dict(os.environ, LC_ALL='C.UTF-8')
        for k in ('MAKEFLAGS', 'CFLAGS', 'LDFLAGS'):
            env.pop(k, None)
        args = ['make', '-j8', '-f', 'build/linux.mk', 'CC=gcc']
        if kind == 'asan':
            env['ASAN_OPTIONS'] = 'detect_leaks=0'
            args += ['ldflags=' + SAN, 'CFLAGS=-O1 -g -fno-omit-frame-pointer -DCJIT_VERIF ' + SAN]
        elif kind == 'msan':
            # no origins: they would double the run time of every case
            args[args.index('CC=gcc')] = 'CC=clang'
            s = '-fsanitize=memory -fno-sanitize-memory-param-retval'
            args += ['ldflags=' + s, 'CFLAGS=-O1 -g -fno-omit-frame-pointer -DCJIT_VERIF ' + s]
        elif kind == 'tsan':
            s = '-fsanitize=thread'
            args += ['ldflags=' + s, 'CFLAGS=-O1 -g -fno-omit-frame-pointer ' + s]
        elif kind == 'cov':
            args += ['ldflags=--coverage', 'CFLAGS=-O1 -g --coverage']
        elif kind == 'plain':
            pass
        else:
            raise HarnessError('unknown build kind ' + kind)
        log = ''
        steps = [['lib/tinycc/libtcc1.a']]
        if kind != 'tsan':
            steps += [['VERSION=' + self.version, 'embed-posix'], ['VERSION=' + self.version, 'cjit']]
        for st in steps:
            r = run(args + st, cwd=self.top, env=env, timeout=300)
            log += r.text + r.etext
            if r.rc != 0:
                raise HarnessError('build %s failed:\n%s' % (kind, log[-3000:]))
        self.cjit = os.path.join(self.top, 'cjit')
        self.tccdir = os.path.join(self.top, 'lib/tinycc')
        self.libtcc = os.path.join(self.tccdir, 'libtcc.a')
        self.tcc = [os.path.join(self.tccdir, 'tcc'), '-B' + self.tccdir]
        for f in (self.libtcc, self.tcc[0]) + ((self.cjit,) if kind != 'tsan' else ()):
            if not os.path.exists(f):
                raise HarnessError('build %s: no %s\n%s' % (kind, f, log[-3000:]))

    def env(self, **kw):
        e = dict(os.environ)
        if self.kind == 'asan':
            e['ASAN_OPTIONS'] = 'detect_leaks=0:handle_segv=1:allocator_may_return_null=1:detect_stack_use_after_return=0'
            e['UBSAN_OPTIONS'] = 'print_stacktrace=1'
        e.update(kw)
        return e

    def warm(self):
        """Create the runtime assets once, so that cases do not race for them."""
        r = run([self.cjit, '-'], input=b'int main(){return 0;}\n', timeout=60, env=self.env())
        return r


def build(ctx, kind='plain'):
    b = Build(ctx, kind)
    return b


def cc(ctx, out, srcs, flags=(), timeout=120, compiler='gcc'):
    r = run([compiler] + list(flags) + ['-o', out] + list(srcs), timeout=timeout)
    if r.rc != 0:
        raise HarnessError('%s failed: %s' % (compiler, r.etext[-3000:]))
    return out
