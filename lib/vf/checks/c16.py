"""C16: cjit itself never misuses memory, whatever it is given."""
import os, re, glob, shutil
from .. import core, build
from ..core import run, run_wd
from ..gen import mutate, cgen, ppgen

RULE = ('A case is one cjit process built with AddressSanitizer and UndefinedBehaviorSanitizer (tiny allocator off, so that every object has red zones), or with '
        'MemorySanitizer for uninitialised reads, that is given: a mutated source (C or assembly), extreme constants in every syntactic place, deep nesting and long lists, '
        'a hostile command line, environment or set of files, a mutated linker script, a message of any length, or a valid program to run, dump or link. It must end by itself '
        'without a sanitizer report; a valid program must give what the uninstrumented build gives. Non-trivial: all but empty inputs.')
ASSUMPTIONS = ['contents of object files and shared libraries are well formed', 'sources nest less than 300 levels, objects stay below 2^27 bytes, lines below 2^31 - 256',
               'alignment, shift, nonnull-attribute and pointer-overflow reports of UBSan are not counted']

T = '/repo/lib/tinycc/tests'


class Check:
    def __init__(self, ctx):
        self.ctx = ctx
        bs = core.pmap(lambda k: build.build(ctx, k), ['asan', 'msan', 'plain'])
        self.b = dict(zip(('asan', 'msan', 'plain'), bs))
        for b in bs: b.warm()
        self.dir = ctx.sub('w')
        rd = lambda fs: [(f, open(f, 'rb').read()) for f in sorted(fs) if os.path.getsize(f) < 90000]
        R = core.REPO + '/lib/tinycc'
        self.seeds = rd(glob.glob(R + '/tests/tests2/*.c') + glob.glob(R + '/tests/pp/*.[cS]') + glob.glob(core.REPO + '/test/*.c'))
        self.big = rd(f for f in glob.glob(R + '/*.c') + glob.glob(core.REPO + '/src/*.c') + glob.glob(core.REPO + '/examples/*.c') + glob.glob(R + '/tests/*.c') if '/embed_' not in f)
        self.asm = rd(glob.glob(R + '/tests/tests2/*.S') + glob.glob(R + '/tests/*.S') + glob.glob(R + '/lib/*.S'))
        self.inc = ['-I' + x for x in (R + '/tests/tests2', R, core.REPO + '/src', core.REPO + '/examples', R + '/tests')]
        if len(self.seeds) < 100 or len(self.asm) < 3: raise core.HarnessError('seed programs missing')

    def judge(self, key, kind, r, files, cmd, statuses=None):
        """One process has ended: sanitizer silent, no signal?"""
        ctx = self.ctx
        ctx.case(key)
        ctx.obs('processes_%s' % kind)
        if r.timeout:
            ctx.inconclusive('time limit')
            return False
        rep = core.san_report(r.err) or core.san_report(r.out)
        msg = None
        if rep:
            k = core.san_key(r.err)
            msg = rep
            key = k            # one report per place, not per input
        elif r.sig: msg = 'killed by signal %d' % r.sig
        elif statuses is not None and r.rc not in statuses: msg = 'status %s' % r.rc
        if msg:
            ctx.violation(key, '%s: %s: %s' % (kind, msg, ' '.join(map(repr, cmd[1:]))[:300]), dict(files, **{'command.txt': repr(cmd) + '\n', 'stderr.txt': r.err[-20000:], 'stdout.txt': r.out[-5000:]}))
            return False
        ctx.obs('clean_exits')
        ctx.distinct('exit_statuses', r.rc)
        return True

    # ---- sources ------------------------------------------------------------
    def source(self, k):
        r = self.ctx.rand('src', k)
        q = r.randrange(20)
        fs = self.asm if q < 3 else self.big if q < 5 else self.seeds
        ext = '.S' if q < 3 else '.c'
        if q < 10: return ('mutated', ext, mutate.mutate(r, r.choice(fs)[1], r.choice(fs)[1]))
        if q < 12:
            p = r.choice([ppgen.cond_program, ppgen.line_program, lambda r: cgen.program(r)[0]])(r)
            return ('mutated', '.c', mutate.mutate(r, (p[0] if isinstance(p, tuple) else p).encode('utf-8', 'replace'), r.choice(fs)[1]))
        if q < 19: return ('extreme', '.c', mutate.extreme(r))
        return ('deep', '.c', mutate.deep(r))

    FLAGS = [[]] * 6 + [[f] for f in ('-C-g', '-C-b', '-C-bt', '-C-Wall -Werror', '-C-E', '-C-E -dD', '-C-E -P', '-C-nostdinc', '-C-std=c11', '-C-ftest-coverage', '-C-fms-extensions', '-C-fdollars-in-identifiers',
                                      '-C-funsigned-char', '-C-fleading-underscore', '-C-mms-bitfields', '-C-fno-common', '-C-Wunsupported', '-C-w', '-C-MD -MF dep.d')]

    def scaled(self, job):
        name, n = job
        self.ctx.distinct('constructs_at_sizes', name)
        self.src('%s-%d' % job, ('scaled', '.c', (mutate.SCALED[name](n) + '\n').encode()))

    def src(self, k, given=None):
        kind = 'msan' if not given and k % 4 == 3 else 'asan'
        what, ext, text = given or self.source(k)
        r = self.ctx.rand('srcflags', k)
        d = os.path.join(self.dir, 's%s' % k)
        os.makedirs(d)
        n = 'a' + ext
        open(os.path.join(d, n), 'wb').write(text)
        b = self.b[kind]
        cmd = [b.cjit] + r.choice(self.FLAGS) + ['-c', n, '-o', 'a.o'] + (self.inc if what == 'mutated' else [])
        p = run_wd(cmd, cwd=d, env=b.env(), timeout=15)
        self.ctx.obs('sources_' + what)
        self.ctx.obs('source_bytes', len(text))
        self.ctx.obs('accepted' if p.rc == 0 else 'refused')
        self.judge('src-%s' % k, kind, p, {n: text}, cmd, (0, 1, 255))
        shutil.rmtree(d)

    # ---- command lines ------------------------------------------------------
    def prepare(self):
        """Files the hostile command lines refer to."""
        d = self.tmpl = os.path.join(self.dir, 'tmpl')
        os.makedirs(d + '/dir/sub')
        w = lambda n, t: open(os.path.join(d, n), 'wb').write(t if isinstance(t, bytes) else t.encode())
        good = '#include <stdio.h>\nint main(int c, char **v){for(int i=0;i<c;i++)puts(v[i]);return c;}\n'
        w('good.c', good)
        w('f.c', 'int helper(int x){return x+1;}\n')
        w('bad.c', 'int main({return "x}\n')
        w('warn.c', 'int main(){char *p=3; int q="x"; return foo(p,q);}\n')
        w('empty.c', '')
        w('nul.c', good.replace('puts', 'pu\0ts'))
        w('bom.c', b'\xef\xbb\xbf' + good.encode())
        w('utf16.c', good.encode('utf-16'))
        w('bin.c', bytes(range(256)) * 40)
        w('noext', good)
        w('in.c', '#include "in.c"\nint x;\n')
        w('a.S', '.globl helper\nhelper: mov $1,%eax\nret\n')
        w('h.h', '#define H 1\n')
        w(' sp ace.c', good)
        w('L' * 200 + '.c', good)
        w('list', 'good.c -DX=1 "-I some dir" -o list.out')
        w('script.so', 'GROUP ( ./libx.so AS_NEEDED ( libm.so.6 -lc ) )')
        w('dir/libs.so', '/* GNU ld script */ INPUT(libx.so)')
        w('dir/libt.so', '')
        w('dir/libu.so', b'\x7fEL')
        w('dir/libv.so', b'\x7fELF\2\1\1')
        os.symlink('nowhere', d + '/dangling.c')
        os.symlink('loop.c', d + '/loop.c')
        os.symlink('../libx.so', d + '/dir/libx.so')
        os.symlink('dir', d + '/libd.so')
        w('x.c', 'int xfun(void){return 5;}\n')
        for c in (['gcc', '-c', 'f.c', '-o', 'f.o'], ['gcc', '-shared', '-fPIC', 'x.c', '-o', 'libx.so'], ['ar', 'rcs', 'libf.a', 'f.o'], ['tar', 'czf', 't.tgz', 'f.c', 'x.c']):
            q = run(c, cwd=d)
            if q.rc: raise core.HarnessError(q.etext[:300])
        self.files = sorted(os.listdir(d)) + ['dir/sub', 'dir/libx.so', './good.c', 'nosuch.c', 'nosuch.o', '', ' ', '.', '..', 'good.c/x', '-']

    CW = ['-D', '-DX', '-DX=1', '-D=', '-DX=(', '-DF(x)=x', '-UX', '-I', '-Idir', '-Wl,', '-Wl,-rpath=dir', '-Wl,-soname=x', '-Wl,-Ttext=0x5000000', '-Wl,-z,now', '-Wl,--bogus', '-Wl,-export-dynamic', '-Wall', '-Werror', '-Wbogus', '-Wno-error',
          '-g', '-g3', '-gdwarf-9', '-b', '-bt', '-bt5', '-E', '-P', '-P99', '-dM', '-dD', '-dt', '-MD', '-MF', '-c', '-r', '-shared', '-static', '-nostdlib', '-nostdinc', '-rdynamic', '-pthread', '-std=c11', '-std=c99x', '-x', '-xc', '-xn', '-xasm', '-xbogus', '-m32', '-m64', '-mno-sse', '-mbogus',
          '-O', '-O9', '-pipe', '-s', '-v', '-vv', '-bench', '-include', '-includeh.h', 'h.h', 'good.c', 'nosuch.h', '-isystem', 'dir', '-idirafter', '-lx', '-Ldir', '-l', '-L', '-fPIC', '-fbogus', '-fno-', '-f', '-soname', 'so.1', '-print-search-dirs', '-dumpversion', '-dumpmachine', '--version', '-hh', '-ar', '-impdef',
          '"', "'", '"a b', "-D'q w'", '-D\\"', '\\', '\\\\', '\\ x', '@list', '@nosuch', '@', '-', '--', '--param', '-run', '\x01', '\xe9', '-B', '-Bdir', '-isysroot', '--sysroot', '-i', '-u', '-usym', '-T', '-tt', '-rstdin', '-rstdin=f.c', '-i', '-dumpfullversion', '-Wp,-DX', '-Wp,-MD', '-Wp,']

    def cmdline(self, r):
        def longw(c='A'): return c * r.choice([1, 2, 100, 255, 256, 257, 511, 512, 513, 1023, 1024, 1025, 4094, 4096, 4097, 9000, 40000])
        def cflags():
            t = ' '.join(r.choice(self.CW) if r.random() < .95 else longw() for i in range(r.choice([0, 1, 1, 2, 3, 6])))
            return t if r.random() < .8 else r.choice([' ', '  ', '\t', '\n']) + t + r.choice([' ', '\\', '"', ''])
        def word():
            q = r.randrange(30)
            f = r.choice(self.files)
            sep = (lambda o, v: [o, v] if r.random() < .5 else [o + v])
            if q < 7: return [f]
            if q == 7: return sep('-D', r.choice(['', '=', 'X', 'X=', 'X=1', '=1', 'X=(', 'X=a b', 'X="s"', '1=2', 'F(a)=a', longw('D'), 'X=' + longw('1'), longw() + '=' + longw(), '\xe9=1', '-', '--', '==', 'X==', 'X=-1', 'X\n=1']))
            if q == 8: return sep('-I', r.choice([f, '', 'dir', longw('i'), 'dir/' * 300]))
            if q == 9: return sep('-L', r.choice([f, '', 'dir', 'nodir', longw('l'), './' * 400 + 'dir']))
            if q in (10, 11): return sep('-l', r.choice(['x', 's', 't', 'u', 'v', 'd', 'm', 'c', '', 'nosuch', '../x', '/', longw('k'), 'x.so', '%s%n', 'dl', 'pthread']))
            if q == 12: return sep('-e', r.choice(['main', '', 'nosuch', 'helper', 'printf', longw('e'), 'environ', '%n']))
            if q == 13: return sep('-o', r.choice(['out', '', 'dir', 'dir/out', 'nodir/out', longw('o'), 'out.o', 'out.so', 'out.a', '.', 'dir/']))
            if q == 14: return sep('-p', r.choice(['pid', '', 'dir', 'nodir/pid', longw('p'), 'dir/pid']))
            if q in (15, 16, 17): return sep('-C', cflags())
            if q == 18: return ['-c']
            if q == 19: return [r.choice(['-q', '-qq', '-h', '-v', '--help', '--verb', '--verbose', '--bogus', '--xass', '--xass=ass', '--xass=', '--xass=' + longw('x'), '--src', '--', '---', '-', '-\xe9', '-z', '-qz', '-a', '-b', '-ga', '-g', '--he', '--help=x', '--xtgz', '--xtgz=', '--xtgz=' + f if 'tgz' not in f else '--xtgz=t.tgz', '-ar', '-cq', '-qc'])]
            if q == 20: return ['--xtgz', r.choice(['t.tgz', 'good.c', '', 'dir', 'nosuch', longw('t'), 'f.o', 'bin.c'])]
            if q == 21: return [r.choice(['-O', '-O2', '-Wall', '-Wl,x', '-fPIC', '-M', '-MD', '-MF', '-MT', '-s', '-shared', '-g3', '-static-libgcc', '-f', '-W' + longw('w'), '-f' + longw('f')])]
            if q == 22: return [longw('-')]
            if q == 23: return [longw(r.choice('a.c/%\xe9 '))]
            if q == 24: return ['--'] + [r.choice(['x', longw(), '', '-o', '--'])] * r.choice([0, 1, 3, 200])
            if q == 25: return [f] * r.choice([2, 10, 70])
            if q == 26: return ['-D' + 'M%d' % i for i in range(r.choice([5, 100, 1000]))]
            if q == 27: return ['-I' + 'd%d' % i for i in range(r.choice([5, 100, 1000]))]
            if q == 28: return ['-l' + r.choice('xstuvm')] * r.choice([2, 5, 40])
            return ['good.c']
        out = []
        for i in range(r.choice([0, 1, 2, 3, 4, 6, 9])): out += word()
        if r.random() < .6: out.insert(r.randrange(len(out) + 1), 'good.c')
        if r.random() < .04: out.insert(0, r.choice(['-ar', 'conftest.c']))
        env = {}
        if r.random() < .35: env['CFLAGS'] = cflags()
        for n in ('LD_LIBRARY_PATH', 'HOME', 'PATH', 'LC_ALL', 'CPATH', 'C_INCLUDE_PATH', 'LIBRARY_PATH', 'TCC_PATH', 'LD_RUN_PATH', 'TMPDIR'):
            if r.random() < .06: env[n] = r.choice(['', 'dir', ':', 'dir:' * 500, longw('v'), '::dir:', '\xe9'])
        return out, env

    def cmd(self, k):
        r = self.ctx.rand('cmd', k)
        args, env = self.cmdline(r)
        args = [a.replace('\0', '')[:120000] for a in args]
        kind = 'msan' if k % 5 == 4 else 'asan'
        b = self.b[kind]
        d = os.path.join(self.dir, 'c%d' % k)
        shutil.copytree(self.tmpl, d, symlinks=True)
        sin = r.choice([b'', b'', b'int main(){return 0;}', b'int main(){return 0', b'\0' * 300, bytes(range(256)) * 20, b'\xef\xbb\xbfint main(){return 0;}', b'x' * 70000])
        cmd = [b.cjit] + args
        close = r.choice([''] * 12 + ['<&-', '>&-', '2>&-', '<&- >&-', '>&- 2>&-', '<&- >&- 2>&-', '</nonexistent'])
        if close and close != '</nonexistent': cmd = ['/bin/sh', '-c', 'exec "$@" ' + close, 'sh'] + cmd
        enc = lambda s: s.encode('latin-1', 'replace')
        p = run_wd([enc(a) for a in cmd], cwd=d, env={enc(n): enc(v) for n, v in b.env(**env).items()}, timeout=20, input=sin)
        self.ctx.obs('command_words', len(args))
        # a program of the case that ran may have left with anything; a signal
        # ends it with a message of cjit's
        if p.etext.startswith('Process terminated') or 'Process terminated with signal' in p.etext: self.ctx.obs('programs_killed')
        self.judge('cmd-%d' % k, kind, p, {'env.txt': repr(env), 'stdin.bin': sin}, cmd)
        shutil.rmtree(d)

    # ---- linker scripts -----------------------------------------------------
    SCRIPTS = ['GROUP ( libx.so )', 'INPUT(libx.so AS_NEEDED(-lx))', 'OUTPUT_FORMAT(elf64-x86-64)\nGROUP(libx.so,-lx , AS_NEEDED ( liby.so -ly ) )\n', '/* c */ TARGET(x) INPUT ( /lib/x86_64-linux-gnu/libm.so.6 )', 'INPUT(libx.so)INPUT(liby.so)/**/GROUP(AS_NEEDED(AS_NEEDED(libx.so)))']

    def script(self, k):
        r = self.ctx.rand('ld', k)
        t = r.choice(self.SCRIPTS).encode()
        for i in range(r.choice([0, 1, 1, 2, 4])):
            q, j = r.randrange(8), r.randrange(len(t) + 1)
            if q == 0: t = t[:j]
            elif q == 1: t = t[:j] + bytes([r.randrange(128)]) + t[j:]
            elif q == 2: t = t[:j] + r.choice([b'(', b')', b',', b'-', b'-l', b'/*', b'*/', b'/', b'\\', b'AS_NEEDED', b'AS_NEEDED(', b'GROUP', b'INPUT (', b'\0', b'\xff', b'"']) + t[j:]
            elif q == 3: t = t[:j] + r.choice([b'y', b'/', b'(', b' ', b'-l', b'AS_NEEDED(', b'lib/', b'a.']) * r.choice([62, 63, 64, 65, 255, 256, 503, 504, 511, 512, 513, 1023, 1024, 1025, 2000]) + t[j:]
            elif q == 4: t = t[:j] + t[max(0, j - 20):]
            elif q == 5: t = t + b'\n' + r.choice(self.SCRIPTS).encode()
            elif q == 6: t = t[j:]
            elif q == 7: t = b' ' * r.choice([1, 70, 5000]) + t
        d = os.path.join(self.dir, 'l%d' % k)
        os.makedirs(d)
        for n in ('libx.so', 'liby.so'): shutil.copy(self.tmpl + '/libx.so', d + '/' + n)
        open(d + '/libq.so', 'wb').write(t)
        open(d + '/m.c', 'w').write('int main(){return 0;}')
        b = self.b['msan' if k % 3 == 2 else 'asan']
        cmd = [b.cjit, 'm.c', '-L.', '-lq'] + (['-o', 'out'] if r.random() < .3 else [])
        p = run_wd(cmd, cwd=d, env=b.env(), timeout=20)
        self.ctx.obs('linker_scripts')
        self.judge('script-%d' % k, b.kind, p, {'libq.so': t}, cmd)
        shutil.rmtree(d)

    # ---- messages -----------------------------------------------------------
    def message(self, job):
        n, what = job
        w = 'Zq' + 'abcdefghij' * (n // 10) + 'x' * (n % 10)
        path, files, args = 'm.c', {}, []
        t = {'error': '#error %s\n' % w, 'warning': '#warning %s\nint main(){return 0;}\n' % w, 'undeclared': 'int main(){return %s;}\n' % w, 'include': '#include "%s"\n' % w, 'symbol': 'int %s(void);int main(){return %s();}\n' % (w, w),
             'field': 'struct %s{int a;}s;int main(){return s.%s;}\n' % (w, w), 'incompat': 'struct %s{int a;}*p;int main(){int*q=p;return 0;}\n' % w, 'redef': 'int %s;double %s;\n' % (w, w), 'line': '#line 5 "%s"\nint main({\n' % w,
             'asm': 'int main(){asm("%s");}\n' % w, 'attr': '__attribute__((%s)) int x; int main(){return 0;}\n' % w, 'label': 'int main(){goto %s;}\n' % w, 'macro': '#define %s(a) a\nint x=%s(1,2);\n' % (w, w), 'tok': 'int main(){return 1 "%s";}\n' % w,
             'many': ''.join('int v%d = "%s";\n' % (i, w[:40]) for i in range(min(n, 3000))) + 'int main(){return 0;}\n', 'missing': 'int main(){return 0;}\n', 'lib': 'int main(){return 0;}\n', 'entry': 'int main(){return 0;}\n', 'nested': '#include "h0.h"\n'}[what]
        d = os.path.join(self.dir, 'm-%s-%d' % (what, n))
        os.makedirs(d)
        if what == 'nested':
            for i in range(min(n, 24)): open(d + '/h%d.h' % i, 'w').write('#include "h%d.h"\n' % (i + 1))
            open(d + '/h%d.h' % min(n, 24), 'w').write('#error %s\n' % w)
        open(d + '/m.c', 'w').write(t)
        if what == 'missing': args = [w]
        if what == 'lib': args = ['-l' + w]
        if what == 'entry': args = ['-e', w]
        for kind in ('asan', 'msan', 'plain'):
            b = self.b[kind]
            cmd = [b.cjit, 'm.c'] + args
            p = run_wd(cmd, cwd=d, env=b.env(), timeout=20)
            self.ctx.obs('messages')
            self.ctx.obs('message_bytes', len(p.err))
            if not self.judge('msg-%s-%d-%s' % (what, n, kind), kind, p, {'m.c': t}, cmd): continue
            # complete or cut: what is there of the word is a prefix of it
            if what in ('many', 'attr', 'incompat'): continue
            got = [m for m in re.findall(r'Zq[a-jx]*', p.etext)]
            if not got: self.ctx.violation('msgtext-%s-%d' % (what, n), 'the message does not name the word of %d characters: %s' % (n, p.etext[:300]), {'m.c': t, 'stderr.txt': p.err})
            else:
                self.ctx.obs('message_words_read', len(got))
                best = max(len(g) for g in got)
                if any(not w.startswith(g) for g in got): self.ctx.violation('msgtext-%s-%d' % (what, n), 'the message names something else: %s' % p.etext[:300], {'m.c': t, 'stderr.txt': p.err})
                elif best < min(len(w), 200): self.ctx.violation('msgtext-%s-%d' % (what, n), 'the message names %d of %d characters: %s' % (best, len(w), p.etext[:300]), {'m.c': t, 'stderr.txt': p.err})
        shutil.rmtree(d)

    # ---- valid programs -----------------------------------------------------
    def valid(self, job):
        name, path, text = job
        r = self.ctx.rand('valid', name)
        d = os.path.join(self.dir, 'v-' + name)
        os.makedirs(d)
        if path: text = open(path, 'rb').read()
        open(d + '/v.c', 'wb').write(text)
        inc = ['-I' + os.path.dirname(path)] if path else []
        res = {}
        mode = r.choice(['run', 'run', 'exe', 'obj'])
        fl = r.choice([[], [], ['-C-g'], ['-C-b'], ['-C-bt']])
        for kind in ('plain', 'asan') + (('msan',) if mode != 'run' else ()):
            b = self.b[kind]
            dd = d + '/' + kind
            os.makedirs(dd)
            shutil.copy(d + '/v.c', dd)
            cmd = [b.cjit, '-q'] + fl + inc + {'run': ['v.c'], 'exe': ['v.c', '-o', 'v.out'], 'obj': ['-c', 'v.c', '-o', 'v.out']}[mode]
            p = run_wd(cmd, cwd=dd, env=b.env(), timeout=30)
            if p.timeout and mode == 'run': break
            self.ctx.obs('valid_' + mode)
            if not self.judge('valid-%s-%s' % (name, kind), kind, p, {'v.c': text}, cmd): break
            out = open(dd + '/v.out', 'rb').read() if os.path.exists(dd + '/v.out') else None
            # the assets directory is named in what is written
            if out is not None: out = re.sub(rb'/tmp/cjit-vf[^\0/:]*', b'ASSETS', out) if not fl and mode == 'obj' else len(out) > 0
            res[kind] = (p.rc, p.out if mode == 'run' else None, out)
        for kind in res:
            if res[kind] != res['plain'] and not (mode == 'run' and res['plain'][0] == res[kind][0] and self.unstable(d, fl, inc, res['plain'])):
                self.ctx.violation('valid-%s' % name, '%s of %s differs under %s: status %s/%s' % (mode, name, kind, res['plain'][0], res[kind][0]), {'v.c': text, 'plain.txt': repr(res['plain'])[:20000], kind + '.txt': repr(res[kind])[:20000]})
        shutil.rmtree(d)

    def unstable(self, d, fl, inc, first):
        """A program that prints addresses or times differs from itself."""
        for i in range(3):
            p = run([self.b['plain'].cjit, '-q'] + fl + inc + ['v.c'], cwd=d + '/plain', env=dict(self.b['plain'].env(), X='y' * (i * 999 + 1)), timeout=30)
            if p.out != first[1]: return True
        return False


def check(ctx):
    c = Check(ctx)
    c.prepare()
    jobs = [(c.src, k) for k in range(ctx.n(2600, 90000))] + [(c.cmd, k) for k in range(ctx.n(700, 20000))] + [(c.script, k) for k in range(ctx.n(240, 6000))]
    big = {x for x in mutate.SIZES if x > 9000}
    for name in sorted(mutate.SCALED):
        sz = [x for x in mutate.SIZES if x not in big]
        jobs += [(c.scaled, (name, x)) for x in (sz if not ctx.quick else sorted(set(ctx.rand('sz', name).sample(sz, 8) + [x for x in mutate.SIZES if x in (31, 65, 129, 257, 1025)])))]
        if not ctx.quick: jobs += [(c.scaled, (name, x)) for x in sorted(big)]
    lens = [1, 60, 127, 128, 250, 256, 500, 512, 1000, 1023, 1024, 1025, 2047, 2048, 4095, 4096, 8191, 20000] if not ctx.quick else [1, 128, 250, 511, 1023, 1025, 4096, 20000]
    for w in ('error', 'warning', 'undeclared', 'include', 'symbol', 'field', 'incompat', 'redef', 'line', 'asm', 'attr', 'label', 'macro', 'tok', 'many', 'missing', 'lib', 'entry', 'nested'):
        jobs += [(c.message, (n, w)) for n in lens]
    good = []
    for f in sorted(glob.glob(core.VERIF + '/corpus/c0*/*.c')): good.append((os.path.basename(f)[:-2], f, None))
    for f, t in c.seeds:
        if 'tests2' in f and not re.search(rb'time\(|rand\(|getpid', t) and not re.search(r'60_errors|96_nodata|101_cleanup|106_|112_|114_|115_|116_|117_|124_|125_|126_|128_|132_|138_', f): good.append(('t2-' + os.path.basename(f)[:-2], f, None))
    if ctx.quick: good = ctx.rand('good').sample(good, min(len(good), ctx.n(70, 70)))
    jobs += [(c.valid, g) for g in good]
    jobs += [(c.valid, ('gen%d' % k, None, cgen.program(ctx.rand('gen', k))[0].encode())) for k in range(ctx.n(25, 1500))]
    if os.environ.get('VF_ONLY'): jobs = [j for j in jobs if j[0].__name__ == os.environ['VF_ONLY']]
    ctx.rand('order').shuffle(jobs)
    core.pmap(lambda j: j[0](j[1]), jobs)
