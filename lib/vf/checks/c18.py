"""C18 histories of the library API in one process: every state's transcript must equal that of
the same operations alone in a fresh process; nothing is left when no state is alive."""
import os, re, shutil, glob
from .. import core, build
from ..gen import mutate

RULE = ('A case is one history: 3-9 compiler states with interleaved or successive lifetimes, each with its own operations (options, definitions, paths, valid and '
        'invalid sources, files, libraries, relocation, calls, runs, output files, deletion), executed by one process built with ASan/UBSan; the transcript of each state '
        '(return values, diagnostics, program output, hashes of written files) is compared with that of the same operations alone in a fresh process. Whenever no state is alive '
        'the count of live library allocations, open files and executable mappings must be back to zero. Non-trivial: at least one state fails or is configured unlike another.')
ASSUMPTIONS = ['after a failed compilation the only operation on that state is its deletion', 'names of local labels (L.n) are not part of the results']

# what a careless implementation would carry over
POLLUTE = [
    '#define int char\n#define main niam\n#define VICTIM 5\ntypedef long T1;\nenum { E1 = 40, E2 };\nstruct s1 { int q; };\nint g1 = 5;\nint f(int x) { return x; }\n',
    '#pragma pack(push, 1)\nstruct p { char c; long l; };\nint f(int x) { return sizeof(struct p) + x; }\n#pragma pack(push, 2)\n',
    '#define PM 1\n#pragma push_macro("PM")\n#undef PM\n#define PM 2\n#pragma push_macro("PM")\nint f(int x) { return PM + x; }\n',
    '#include "once.h"\n#include "guard.h"\nint f(int x) { return ONCE + GUARD + x; }\n',
    '#if 1\n#if 0\n#else\nint f(int x) { return x; }\n',
    '#if 0\nint f(int x) { return x; }\n',
    'asm(".section .mysec,\\"aw\\"\\n.set asmsym, 77\\nal1: .long asmsym\\n");\nint f(int x) { return x + 1; }\n',
    'asm(".pushsection .other,\\"ax\\"\\nnop\\n");\nint f(int x) { return x; }\n',
    'asm(".text\\n.globl af\\naf: lea 5(%rdi),%eax\\nret\\n");\nint af(int); int f(int x) { return af(x); }\n',
    'int f(int x) { return __COUNTER__ * 100 + __COUNTER__ + x; }\n',
    '#line 1000 "renamed.c"\nint f(int x) { return __LINE__ + x; }\nint bad = ;\n',
    'static int st; int f(int x) { static int n = 3; return n++ + st++ + x; }\n',
    'extern inline int inl(int x) { return x * 2; }\nstatic inline int un(int x) { return x + inl(x); }\nint f(int x) { return un(x); }\n',
    'int common1; int common1; int f(int x) { return common1++ + x; }\n',
    '__attribute__((weak)) int w1; __attribute__((section(".data.q"))) int q1 = 4; __attribute__((visibility("hidden"))) int h1 = 2; int f(int x) { return w1 + q1 + h1 + x; }\n',
    'int f(int x) { return host_add(x) + 1; }\nint host_add(int);\n',
    'int host_add(int); extern int host_var; int f(int x) { host_var += 0; return host_add(x) + host_var; }\n',
    'void host_print(const char *, long); int f(int x) { host_print(__func__, x); host_print(__FILE__, __LINE__); return 0; }\n',
    'int f(int x) { char a[x + 3]; a[x] = 5; return sizeof a + a[x]; }\n',
    'char c = 200; int f(int x) { return c + x; }\n',
    'int f(int x) { switch (x) { case 1: return 5; case 2 ... 9: return 6; default: return 7; } }\n',
    'long double ld = 1.5L; double d = 3; float fl = 2; int f(int x) { return ld * d * fl + x; }\n',
    '#ifdef VICTIM\n#error leaked\n#endif\n#ifdef PM\n#error leaked\n#endif\n#ifdef ONCE\n#error leaked\n#endif\nint T1 = 3; int E1 = 4; struct s1 { char a[3]; }; struct p { char c; long l; };\nint main1(void); int f(int x) { return T1 + E1 + sizeof(struct s1) + sizeof(struct p) + x; }\n',
    '#ifdef DEF\nint f(int x) { return DEF + x; }\n#else\nint f(int x) { return -x; }\n#endif\n#ifdef OPT\nint o = OPT;\n#endif\n',
    '#include <stddef.h>\n#include <stdarg.h>\n#include <stdio.h>\n#include <string.h>\nint f(int x) { char b[40]; sprintf(b, "%d-%s", x, "abc"); return strlen(b); }\n',
    '#include "inc1.h"\nint f(int x) { return INC1 + x; }\n',
    '_Thread_local int tl; int f(int x) { return x; }\n',
    'int f(int x) { return x / 1 ? 1 : 2; }\nint z[1 / 1];\n',
    '_Static_assert(sizeof(int) == 4, "x"); int f(int x) { return _Generic(x, int: 1, default: 2) + x; }\n',
    'typedef int fn(int); fn f; int f(int x) { __label__ l; if (x) goto l; return 1; l: return 2; }\n',
    'void cl(int *p) { *p = 0; } int f(int x) { __attribute__((cleanup(cl))) int v = x; { __attribute__((cleanup(cl))) int w = v; if (w > 3) return w; } return v; }\n',
    '__attribute__((constructor)) static void ctor(void) { extern void host_print(const char *, long); host_print("ctor", 1); } __attribute__((destructor)) static void dtor(void) { extern void host_print(const char *, long); host_print("dtor", 2); }\nint f(int x) { return x; }\n',
    'int f(int x) { asm("lea (%1,%1),%0" : "=r"(x) : "r"(x)); return x; }\n',
    'struct __attribute__((packed)) pk { char c; int i; }; struct bf { int a : 3; unsigned b : 7; } bfv = { -2, 99 }; int f(int x) { return sizeof(struct pk) + bfv.a + bfv.b + x; }\n',
    'int f(int x) { return ({ int y = x; y * 3; }) + (int){4}; }\nint *pp = (int[]){1, 2, 3};\n',
    'const char *s = "aaa" "bbb"; int L1[] = { [5] = 3, [2] = 1 }; int f(int x) { return sizeof L1 + s[1] + x; }\n',
]
BROKEN = [
    'int f(int x) { { { int y = ', 'int f(int x) { switch (x) { case 1: for (;;) { ', 'struct s { int a; struct { int b; union { ', '#define M(a, b) a + b\nint f(int x) { return M(1, ',
    '#define M(a) #a a ##\nint x;', '#include "inc1.h"\n#include "broken.h"\nint f(int x) { return 1; }', '#include "missing.h"\n', 'int f(int x) { asm("bogus %0" : "=r"(x)); }', 'asm(".section .q\\n bogus\\n");',
    'asm(".pushsection .zz\\n.set aaa, 5\\n 1: jmp 2f\\n .if 1\\n");', 'int a[] = { [3] = 1, { 2, ', 'int f(int x) { char v[x]; char w[x + 1]; return sizeof(v[0]', 'int f(int x) { goto nowhere; }', '"unterminated\n', "int c = 'ab", '/* comment',
    '#if 1\n#if 2\nint f(', '#error stop\n', '#pragma pack(push, 1)\nint x = y;', '#pragma push_macro("QQ")\n#define QQ 1\nint z = ;', 'int f(int x) { __attribute__((cleanup(g))) int v; return y; }', 'typedef struct undefd U; U u;', 'int f(void); char f(void);', 'int f(int x) { return x->y; }',
    'static int h(int); int f(int x) { return h(x); }', 'int f(int x) { return undefined_function(x); }\n', 'int f(int a, int a) { }', 'int f(int x) { return _Generic(x, char: 1); }', '_Static_assert(0, "no");', 'int f(int x) { break; }', 'int f(int x) { case 3: return 1; }',
    '#define A B\n#define B A C\n#define C(x) A(x\nint q = A(3;', 'inline int g(int x) { return { ; }\nint f(int x) { return g(x); }', 'int f(x) int y; { return x; }', 'int x = 1; int x = 2;', 'int f(int x) { return 1; } int f(int x) { return 2; }', 'long long x = 08;', 'int f(int x) { typeof(x = ',
    'int f(int x) { return ({ int k = x; if (k) { return ', 'int a[-1];', 'int f(int x) { struct q { int a; } v = { .b = 1 }; }', '#elif 1\n', '#endif\n', '#define\n', '#include\n', 'int f(int x) { alloca(', 'int f(int x) { return __builtin_va_arg(x', 'float f(float x) { return x % 2; }', 'int f(int x) { x: x: return 1; }', '#line 77 "other.c"\nint x = ;', '_Alignas(3) int x;',
]
# constructs that nest: (opening, closing); @ stands for a number of their own
NEST = [('{ ', ' }'), ('switch (x & 3) { case 1: k += @; break; default: ', ' ; }'), ('switch (x) { case 0 ... 5: ', ' ; case 77: k++; }'), ('for (int i@ = 0; i@ < 2; i@++) { ', ' if (k > 5000) break; else continue; }'),
        ('do { ', ' } while (0);'), ('while (k < @) { k += 9; ', ' }'), ('if (x) { ', ' } else k += 2;'), ('if (!x) k++; else { ', ' }'), ('k += ({ int e@ = x; ', ' e@ + 1; });'),
        ('{ __attribute__((cleanup(cl))) int c@ = x; ', ' k += c@; }'), ('{ __attribute__((cleanup(cl))) int c@ = x; if (x > 90) goto out; ', ' }'), ('{ __label__ l@; if (x == 3) goto l@; k += 7; ', ' l@: k++; }'),
        ('{ char v@[x + 2]; v@[1] = 3; ', ' k += sizeof v@ + v@[1]; }'), ('{ struct s@ { int a; struct { char b; long c; } d; } w@ = { x, { 2, 3 } }; ', ' k += w@.d.c + sizeof w@; }'),
        ('{ enum { E@ = @ }; typedef short T@; T@ y@ = E@; ', ' k += y@; }'), ('{ static int n@ = 4; n@++; ', ' k += n@; }'), ('{ double q@ = x * 1.5; ', ' k += q@; }'), ('{ extern int glob; ', ' glob++; }'),
        ('goto m@; { m@: ', ' }'), ('k += x ? 1 : ({ ', ' 2; });'), ('k += (k, x) + ({ ', ' sizeof(int[3]); });'), ('{ int a@[3] = { [1] = ({ ', ' 5; }) }; k += a@[1]; }'), ('k += use(x, ({ ', ' x + 1; }), 2.5);')]
NERR = ['int x@ = ;', 'y = 1;', 'k += ;', '@@@', 'return ;;)', 'struct nosuch v;', 'k();', 'break x;', 'case;', 'goto;', 'int a[] = { 1, [', 'asm("bogus");', 'asm(".section zz\n bogus");', 'asm(".pushsection zz\n .if 1\n");', 'k += ({ ', 'sizeof(', '_Generic(x, ', 'k += use(1, 2', 'typeof(k = ', 'int f2(int a[(', '#if 1 /',
        '#error here\n', '#include "broken.h"\n', '#define A(x) x\nA(1', '"', "'", '}}}}', 'int k, k;', 'case 1: case 1:', 'default: default:', 'l1: l1:', 'goto undefd;', 'float q = 1.5 % 2;', '__builtin_choose_expr(x, 1, 2);', 'k += x ? 1 :', 'for (int z = 0; ', 'do { k++; } until', 'switch (', 'char vv[x]; char ww[']
PROBES = ['case 1: k++;', 'default: k++;', 'break;', 'continue;', 'l1: l1: k++;', 'return l@;', 'k += E@;', 'k += c@;', 'goto out2;', 'k += i@;', 'glob++;', 'goto l@;', 'goto m@;', 'k += sizeof(struct s@);', 'T@ t;', 'k += zz;', 'asm(".popsection");', 'asm(".previous");', 'asm(".endif");', '#endif\n', '#pragma pack(pop)\n']
HEAD = 'extern int glob; int glob = 3; int k; static void cl(int *p) { k += *p; *p = 0; }\nstatic int use(int a, int b, double c) { return a + b + c; }\nint f(int x) { k = 0;\n'


def nest(rng, what):
    depth = rng.choice([0, 1, 2, 2, 3, 4, 6, 12])
    a, z = '', ''
    for _ in range(depth):
        o, c = rng.choice(NEST)
        n = str(rng.choice([1, 1, 2, 3, 40]))
        a += o.replace('@', n)
        z = c.replace('@', n) + z
        if rng.random() < .2:
            z = '\n' + z
    n = str(rng.choice([1, 1, 2, 3, 40]))
    if what == 'broken':
        return HEAD + a + rng.choice(NERR).replace('@', n) + (z + ' out: return k; }\n' if rng.random() < .5 else '')
    if what == 'probe':
        p = rng.choice(PROBES).replace('@', n)
        if rng.random() < .6:
            return HEAD + p + ' out: return k; }\n'
        return HEAD + a + ' k++; ' + z + p + ' out: return k; }\n'
    return HEAD + a + ' k++; ' + z + ' out: return k + glob; }\n'


OPTS = ['-funsigned-char', '-fcommon', '-fno-common', '-Wall', '-Werror', '-w', '-g', '-g -gdwarf-2', '-bt', '-b', '-D DEF=7', '-DOPT=8', '-nostdinc', '-std=c11', '-fms-extensions', '-fdollars-in-identifiers', '-fno-dollars-in-identifiers', '-fleading-underscore', '-Wwrite-strings', '-Wunsupported', '-Wimplicit-function-declaration', '-Wno-implicit-function-declaration', '-mno-sse',
        '-include inc1.h', '-rdynamic', '-Wl,-Bsymbolic', '-Wl,--oformat=elf64-x86-64', '-x c', '-UVICTIM', '-nostdlib', '-m64', '-bad-option', '-O2', '-I.', '-Wl,-bogus', '-ftest-coverage-x', '-static', '-Wl,-rpath=/x', '-soname=abc', '-fPIC']
ASM = '.text\n.globl fromasm\n.type fromasm,@function\nfromasm: lea 9(%rdi),%eax\nret\n.data\n.set q1, 4\n.long q1\n'


RUNS = [b'#include <stdlib.h>\n#include <stdio.h>\nstatic void q(void) { puts("atexit"); fflush(stdout); }\nint main(int c, char **v) { static int n; atexit(q); printf("n %d c %d %s\\n", n++, c, v[c - 1]); exit(c + 40); }\n',
                                                      b'#include <stdio.h>\nstatic int n = 5; int main(int c, char **v) { printf("%d %s\\n", n++, v[0]); return n; }\n', b'int main(void) { return undefined_thing(); }\n', b'int notmain(void) { return 0; }\n']


def plan(rng, i, d, j, corpus, runs=None, kinds=('mem', 'mem', 'mem', 'mem', 'run', 'run', 'obj', 'obj', 'exe', 'dll', 'pp', 'bare')):
    """the operations of state i"""
    ops = []
    cnt = [0]

    def src(t):
        if isinstance(t, str):
            t = t.encode()
        p = 's%d_%d.c' % (i, cnt[0])
        cnt[0] += 1
        with open(os.path.join(d, p), 'wb') as f:
            f.write(t.replace(b'\0', b''))
        return p
    ops.append('new')
    kind = rng.choice(kinds)
    opts = rng.sample(OPTS, rng.choice([0, 0, 1, 1, 2, 3]))
    failing = bool(opts)
    if kind in ('mem', 'run') and j % 4:
        opts = [o for o in opts if o not in ('-b', '-bt')]
    if kind in ('mem', 'run'):
        opts = [o for o in opts if o != '-static']
    if kind == 'dll':
        opts = [o for o in opts if o not in ('-b', '-bt', '-static')]
    # -nostdlib etc. must come before the output type is set
    for o in opts:
        ops.append('opt\t' + o)
    if kind == 'bare':
        ops.append('del')
        return ops, True
    ops.append('out\t%d' % {'mem': 1, 'run': 1, 'exe': 2, 'dll': 4, 'obj': 3, 'pp': 5}[kind])
    for _ in range(rng.choice([0, 1, 3])):
        ops.append(rng.choice(['def\tDEF\t%d' % rng.randrange(100), 'def\tVICTIM', 'undef\tDEF', 'inc\tsub', 'inc\t/nonexistent', 'sysinc\tsub', 'libpath\t.', 'undef\t__x86_64__', 'def\tint\tshort', 'lib\tarc', 'lib\tnosuchlib', 'lib\tm', 'lib\tso1']))
    n = rng.choice([1, 1, 2])
    if kind == 'pp':
        n = 1
    if kind in ('mem', 'exe', 'dll', 'obj', 'pp'):
        for _ in range(n):
            k = rng.random()
            if j % 3 == 0:
                w = rng.choice(['valid', 'broken', 'broken', 'probe', 'probe'])
                t = nest(rng, w)
                failing |= w != 'valid'
                if _:
                    t = re.sub(r'\bf\b', 'f2', t)
            elif k < .45:
                t = rng.choice(POLLUTE)
                if _:
                    t = re.sub(r'\bf\b', 'f2', t)
            elif k < .7:
                t = rng.choice(BROKEN)
                failing = True
            elif k < .85:
                t = mutate.mutate(rng, rng.choice(corpus), rng.choice(corpus))
                failing = True
                # never called: compiled only
                if kind == 'mem' or kind == 'pp':
                    t = t.replace(b'constructor', b'const').replace(b'__init_array', b'')
            else:
                t = mutate.mutate(rng, rng.choice(POLLUTE).encode(), rng.choice(POLLUTE).encode())
                failing = True
                t = t.replace(b'constructor', b'const')
                t = re.sub(rb'\bf\b', b'notcalled', t)
            ops.append(rng.choice(['str\t', 'file\t']) + src(t))
    else:
        ops.append('str\t' + src(rng.choice(runs or corpus + RUNS)))
    for _ in range(rng.choice([0, 0, 1])):
        ops.append('file\t' + rng.choice(['fa.S', 'fb.s', 'lib.o', 'libarc.a', 'libso1.so', 'fb.o', 'missing.o', 'lib.c', 'once.h', 'fa.S']))
    # (the address of a host function may not go to a file)
    if kind in ('mem', 'run') and rng.random() < .8:
        o = next(k for k, x in enumerate(ops) if x.startswith('out\t')) + 1
        ops.insert(rng.randrange(o, len(ops) + 1) if kind != 'run' else o, 'sym')
    if kind == 'mem':
        if rng.random() < .9:
            ops.append('reloc')
            for _ in range(rng.choice([1, 2, 4])):
                ops.append(rng.choice(['get\tf\t%d' % rng.randrange(20)] * 4 + ['get\tfromlib\t3', 'get\tfromasm\t4', 'get\tabsent\t1', 'list']))
    elif kind == 'run':
        ops.append('run' + ''.join('\t' + x for x in ['prog'] + ['a%d' % k for k in range(rng.choice([0, 1, 3]))]))
    elif kind == 'pp':
        pass
    elif rng.random() < .9:
        ops.append('outf\t' + rng.choice(['out%d.bin' % i] * 5 + ['nodir/x%d' % i]))
        if rng.random() < .3:
            ops.append('list')
    ops.append('del')
    return ops, failing


def base_files(base):
    """headers, objects and libraries to add"""
    for n, t in (('once.h', '#pragma once\n#define ONCE 3\n'), ('guard.h', '#ifndef GH\n#define GH\n#define GUARD 4\n#endif\n'), ('inc1.h', '#include "once.h"\n#define INC1 (ONCE + 1)\n'),
                 ('broken.h', '#define BR(x) x\nint b1 = BR(1;\n'), ('fa.S', '#define X 9\n' + ASM), ('fb.s', ASM.replace('fromasm', 'fromasm2')), ('lib.c', 'int fromlib(int x) { return x + 11; }\nint lv = 2;\n'),
                 ('sub/inc2.h', '#define INC2 22\n'), ('sub/inc1.h', '#define INC1 500\n')):
        os.makedirs(os.path.dirname(os.path.join(base, n)), exist_ok=True)
        open(os.path.join(base, n), 'w').write(t)
    for c in (['gcc', '-c', '-fPIC', 'lib.c', '-o', 'lib.o'], ['ar', 'rcs', 'libarc.a', 'lib.o'], ['gcc', '-shared', '-o', 'libso1.so', 'lib.o'], ['gcc', '-c', '-x', 'assembler', 'fb.s', '-o', 'fb.o']):
        if core.run(c, cwd=base).rc:
            raise core.HarnessError('objects')


def check(ctx):
    a = build.build(ctx, 'asan')
    b = build.build(ctx, 'plain')
    drv = {}
    for bb in (a, b):
        o = os.path.join(ctx.sub('drv'), 'api-' + bb.kind)
        r = core.run(['gcc', '-g', '-O1', '-w'] + (build.SAN.split() if bb.kind == 'asan' else []) + ['-I' + bb.tccdir, '-o', o, os.path.join(os.path.dirname(__file__), '..', 'probes', 'api.c'), bb.libtcc, '-ldl', '-lm', '-lpthread', '-rdynamic'])
        if r.rc:
            raise core.HarnessError(r.etext[-1500:])
        drv[bb.kind] = o
    here = os.path.join(os.path.dirname(__file__), '..', '..', '..', 'corpus')
    corpus = [open(p, 'rb').read() for c in ('c01', 'c03', 'c04', 'c06') for p in sorted(glob.glob(os.path.join(here, c, '*.c')))]
    # objects and libraries to add
    base = ctx.sub('files')
    base_files(base)

    def parse(text):
        """transcript -> per state lines; the program's own output belongs to the state being run"""
        per, cur, rest = {}, None, []
        for l in text.split('\n'):
            m = re.match(r'@(-?\d+) (.*)', l)
            if m:
                i = int(m.group(1))
                per.setdefault(i, []).append(m.group(2))
                cur = i if m.group(2) == 'run-begin' else None
            elif l.startswith('#rest'):
                rest.append(l)
            elif l.startswith('#'):
                pass
            elif cur is not None:
                per[cur].append('out ' + l)
            elif l:
                per.setdefault(-2, []).append(l)
        return per, rest

    def one(j):
        rng = ctx.rand('h', j)
        d = ctx.sub('h%d' % j)
        for n in os.listdir(base):
            os.symlink(os.path.join(base, n), os.path.join(d, n))
        ns = rng.choice([3, 4, 5, 6, 9])
        plans, fails = [], 0
        for i in range(ns):
            p, f = plan(rng, i, d, j, corpus)
            plans.append(p)
            fails += f
        # order: one after the other, or interleaved lifetimes
        style = rng.choice(['seq', 'seq', 'mix', 'mix', 'nest'])
        seq = []
        pos = [0] * ns
        if style == 'seq':
            for i in range(ns):
                seq += [(i, o) for o in plans[i]]
        elif style == 'mix':
            # a window of live states
            win = rng.choice([2, 3, ns])
            while any(pos[i] < len(plans[i]) for i in range(ns)):
                liv = [i for i in range(ns) if pos[i] < len(plans[i])][:win]
                i = rng.choice(liv)
                seq.append((i, plans[i][pos[i]]))
                pos[i] += 1
        else:
            cut = [rng.randrange(1, len(p)) for p in plans]
            for i in range(ns):
                seq += [(i, o) for o in plans[i][:cut[i]]]
            for i in reversed(range(ns)):
                seq += [(i, o) for o in plans[i][cut[i]:]]

        def script(ops, name):
            p = os.path.join(d, name)
            with open(p, 'w') as f:
                for i, o in ops:
                    a, _, r = o.partition('\t')
                    f.write('%s\t%d%s\n' % (a, i, '\t' + r if _ else ''))
            return p
        env = dict(os.environ, LC_ALL='C', ASAN_OPTIONS='detect_leaks=0:abort_on_error=0:exitcode=99:detect_odr_violation=0', UBSAN_OPTIONS='print_stacktrace=1')
        kind = 'asan' if rng.random() < .6 else 'plain'
        bb = a if kind == 'asan' else b
        hp = script(seq, 'history.txt')
        r = core.run([drv[kind], hp, b.tccdir], cwd=d, env=env, timeout=12)
        key = 'history-%d' % j
        msg = None
        rep = core.san_report(r.err)
        per, rest = parse(r.out.decode('latin-1'))
        files = {'history.txt': open(hp).read(), 'out.txt': r.out, 'err.txt': r.err}
        ctx.obs('operations', len(seq))
        if rep and 'stack-overflow' in rep:
            # nesting without bound (C16's exclusion)
            ctx.inconclusive('deep-nesting')
            msg = 'skip'
        elif rep:
            msg = 'sanitizer: ' + rep
        alone = {}
        if not msg:
            for i in range(ns):
                ap = script([(i, o) for o in plans[i]], 'alone%d.txt' % i)
                r1 = core.run([drv['plain'], ap, b.tccdir], cwd=d, env=env, timeout=6)
                p1, rest1 = parse(r1.out.decode('latin-1'))
                norm = lambda L: [l.replace(a.tccdir, 'TCC').replace(b.tccdir, 'TCC') for l in L or []]
                alone[i] = (r1.rc, norm(p1.get(i)), rest1)
                x, y = norm(per.get(i)), alone[i][1]
                ctx.obs('states_compared')
                if r1.rc != 0:
                    # the process ends by itself here (signal in the program, exit): not a history to compare
                    ctx.inconclusive('alone-ends')
                    msg = 'skip'
                    break
                if r.timeout:
                    continue
                if x != y and not msg:
                    k = next((k for k in range(max(len(x), len(y))) if x[k:k + 1] != y[k:k + 1]), 0)
                    msg = 'state %d (%s): alone %r, in the history %r; operations %s' % (i, style, y[k:k + 1], x[k:k + 1], ' | '.join(plans[i]).replace('\t', ' ')[:500])
                    files['alone%d.txt' % i] = open(ap).read()
                    files['alone-out%d.txt' % i] = r1.out
                ctx.distinct('transcript_line_kinds', ' '.join(w for w in (y[-2] if len(y) > 1 else '').split()[:2]))
            if msg is None and r.timeout and core.run([drv[kind], hp, b.tccdir], cwd=d, env=env, timeout=100).timeout:
                msg = 'no end, though every state alone ends'
            if msg is None and r.timeout:
                ctx.inconclusive('slow')
                msg = 'skip'
            if msg is None and r.rc != 0:
                msg = 'exit %s' % r.rc
            if msg is None:
                for l in rest:
                    ctx.obs('quiet_points_checked')
                    # (the sanitized build has no tiny allocator: its blocks, released together, are not in the count)
                    if not re.match(r'#rest live %s fds 0 maps 0$' % ('0' if kind == 'plain' else r'\d+'), l):
                        msg = 'left behind when no state is alive: ' + l
                        break
        if msg and msg != 'skip':
            for n in os.listdir(d):
                p = os.path.join(d, n)
                if re.match(r's\d+_\d+\.c$', n):
                    files[n] = open(p, 'rb').read()
            ctx.violation(key, msg, files)
        ctx.case(key, nontrivial=fails > 0)
        ctx.distinct('order', style)
        if j < 2:
            ctx.sample({'operations': [('%d %s' % (i, o)).replace('\t', ' ') for i, o in seq][:12]})
        shutil.rmtree(d, ignore_errors=True)
    only = os.environ.get('VF_ONLY')
    core.pmap(one, [int(only)] if only else range(ctx.n(400, 12000)))
