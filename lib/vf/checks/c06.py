"""C06: a rejected source never runs and never yields an artefact."""
import os, re, struct
from .. import core, build
from ..core import run, run_wd, pmap

RULE = ('A case is one cjit command over one to four generated files in which exactly one defect was put (a compile error of a catalogue placed in a file or an included '
        'header at a known line, a link error, an unreadable / wrongly encoded / damaged file), in run, stdin, -c, -o and -c -o mode. Monitored: the canary files every '
        'constructor and main would write, the exit status, the diagnostic (and its file:line against the place of the defect), and the artefacts on disk. The same layout '
        'without the defect must run (control). Non-trivial: the control ran and wrote its canary.')
ASSUMPTIONS = ['the catalogue holds constraint violations and syntax errors that gcc also rejects']

# (name, text on one line inside a function or None, text at file scope or None, line reported)
# %s is a unique suffix. A defect occupies one line, tokens follow it on the same line.
CAT = [
 ('undeclared', 'b', 'int q%s = undeclared%s + 1; (void)q%s;', 1),
 ('undeclared-arg', 'b', 'printf("%%d", nosuch%s); ;', 1),
 ('syntax-init', 'b', 'int q%s = ; int r%s;', 1),
 ('syntax-expr', 'b', 'int q%s = (1 + * ); int r%s;', 1),
 ('missing-paren', 'b', 'int q%s = (1 + 2 ; int r%s = 3;', 1),
 ('missing-semi', 'b', 'int q%s = 1 int r%s = 3;', 1),
 ('member-of-int', 'b', 'int q%s = 1; q%s.x = 2; ;', 1),
 ('no-such-member', 'b', 'struct { int a; } q%s; q%s.zz = 2; ;', 1),
 ('arrow-of-int', 'b', 'int q%s = 1; q%s->x = 2; ;', 1),
 ('deref-int', 'b', 'int q%s = 1; q%s = *q%s; ;', 1),
 ('not-lvalue', 'b', 'int q%s = 1; q%s + 1 = 2; ;', 1),
 ('not-lvalue-inc', 'b', '5++; int q%s; ;', 1),
 ('addr-of-rvalue', 'b', 'int *q%s = &5; (void)q%s;', 1),
 ('call-int', 'b', 'int q%s = 1; q%s(2); ;', 1),
 ('few-args', 'b', 'extern int two%s(int, int); two%s(1); ;', 1),
 ('many-args', 'b', 'extern int one%s(int); one%s(1, 2); ;', 1),
 ('struct-to-int', 'b', 'struct { int a; } q%s; int r%s; r%s = q%s; ;', 1),
 ('int-to-struct', 'b', 'struct { int a; } q%s; q%s = 3; ;', 1),
 ('add-structs', 'b', 'struct { int a; } q%s, r%s; (void)(q%s + r%s); ;', 1),
 ('mul-pointers', 'b', 'char *q%s = 0, *r%s = 0; (void)(q%s * r%s); ;', 1),
 ('incomplete', 'b', 'struct nope%s q%s; (void)q%s;', 1),
 ('sizeof-incomplete', 'b', 'int q%s = sizeof(struct nope%s); (void)q%s;', 1),
 ('break-outside', 'b', 'break; int q%s; ;', 1),
 ('continue-outside', 'b', 'continue; int q%s; ;', 1),
 ('case-outside', 'b', 'case 1: ; int q%s; ;', 1),
 ('default-outside', 'b', 'default: ; int q%s; ;', 1),
 ('dup-case', 'b', 'switch (2) { case 1: break; case 1: break; } ;', 0),
 ('dup-case-u', 'b', 'unsigned q%s = 2; switch (q%s) { case 1: break; case 7: case 1: break; } ;', 0),
 ('dup-case-ul', 'b', 'unsigned long q%s = 2; switch (q%s) { case -1: break; case 0xfffffffffffffffful: break; } ;', 0),
 ('dup-case-conv', 'b', 'unsigned q%s = 2; switch (q%s) { case -1: break; case 0xffffffffll: break; } ;', 0),
 ('dup-case-ll', 'b', 'long long q%s = 2; switch (q%s) { case -5: break; case 4: case -5: break; } ;', 0),
 ('dup-case-char', 'b', "char q%s = 2; switch (q%s) { case 'a': break; case 98: case 97: break; } ;", 0),
 ('dup-case-range', 'b', 'int q%s = 2; switch (q%s) { case 3 ... 7: break; case 5: break; } ;', 0),
 ('dup-case-range-u', 'b', 'unsigned q%s = 2; switch (q%s) { case 1: break; case 9: case 5 ... 9: break; } ;', 0),
 ('dup-default', 'b', 'int q%s = 2; switch (q%s) { default: break; case 5: default: break; } ;', 1),
 ('redeclare-local', 'b', 'int q%s = 1; long q%s = 2; ;', 1),
 ('undef-label', 'b', 'goto nowhere%s; ;', 0),
 ('dup-label', 'b', 'lab%s: ; lab%s: ; ;', 1),
 ('float-mod', 'b', 'double q%s = 1; q%s = q%s %% 2; ;', 1),
 ('float-shift', 'b', 'double q%s = 1; q%s = q%s << 2; ;', 1),
 ('float-not', 'b', 'double q%s = 1; q%s = ~q%s; ;', 1),
 ('if-struct', 'b', 'struct { int a; } q%s; if (q%s) ; ;', 1),
 ('switch-pointer', 'b', 'char *q%s = 0; switch (q%s) { case 1: ; } ;', 1),
 ('bad-char', 'b', 'int q%s = 1 @ 2; ;', 1),
 ('bad-suffix', 'b', 'int q%s = 12abc; ;', 1),
 ('bad-octal', 'b', 'int q%s = 0b102; ;', 1),
 ('empty-char', 'b', "int q%s = ''; ;", 1),
 ('unterminated-char', 'b', "int q%s = 'a; ;", 1),
 ('unterminated-string', 'b', 'char *q%s = "abc; ;', 1),
 ('array-of-void', 'b', 'void q%s[3]; (void)q%s;', 1),
 ('asm-bad', 'b', '__asm__("nosuchinstruction %%rax"); ;', 1),
 ('asm-constraint', 'b', '__asm__("nop" : "=Q!"(undeclared%s)); ;', 1),
 ('void-value', 'b', 'extern void vv%s(void); int q%s = vv%s(); ;', 1),
 ('init-too-many', 'b', 'int q%s = { 1, { 2 } }; struct { int a; } r%s = { .b = 2 }; ;', 1),
 ('static-assert', 'b', '_Static_assert(sizeof(int) == 5, "no%s"); ;', 1),
 ('generic-none', 'b', 'int q%s = _Generic("x", int: 1, double: 2); ;', 1),
 ('macro-few', 'b', '\n#define TWO%s(a, b) a + b\nint q%s = TWO%s(1); ;', 3),
 ('macro-inside', 'b', '\n#define BAD%s(a) (a + undeclared%s)\nint q%s = BAD%s(1); ;', 3),
 ('macro-multi', 'b', '\n#define M%s(a, b) (a +\\\n   b)\nint q%s = M%s(1,\n 2) + undeclared%s + 1; ;', 5),
 ('hash-error', 'd', '#error stop here %s', 1),
 ('missing-header', 'd', '#include "no_such_header_%s.h"', 1),
 ('missing-sysheader', 'd', '#include <no/such/header_%s.h>', 1),
 ('if-syntax', 'd', '#if (1 + \n#endif', 1),
 ('if-div0', 'd', '#if 1 / 0\n#endif', 1),
 ('else-alone', 'd', '#else', 1),
 ('endif-alone', 'd', '#endif', 1),
 ('elif-alone', 'd', '#elif 1', 1),
 ('bad-define', 'd', '#define 12 %s', 1),
 ('bad-params', 'd', '#define F%s(a, 1) a', 1),
 ('bad-line', 'd', '#line abc', 1),
 ('hash-bad-param', 'd', '#define F%s(a) #b\nint x%s = F%s(1);', 0),
 ('dup-func', 'f', 'int fd%s(void) { return 1; } int fd%s(void) { return 2; } int z%s;', 1),
 ('dup-var', 'f', 'int vd%s = 1; int vd%s = 2; int z%s;', 1),
 ('conflict-type', 'f', 'extern int vc%s; extern double vc%s; int z%s;', 1),
 ('conflict-func', 'f', 'int fc%s(int); double fc%s(int); int z%s;', 1),
 ('redef-struct', 'f', 'struct S%s { int a; }; struct S%s { int b; }; int z%s;', 1),
 ('redef-enum', 'f', 'enum { E%s, E%s }; int z%s;', 1),
 ('enum-conflict', 'f', 'int e%s; enum { e%s }; int z%s;', 1),
 ('wrong-tag', 'f', 'struct T%s { int a; }; union T%s x%s; int z%s;', 1),
 ('sign-float', 'f', 'unsigned float uf%s; int z%s;', 1),
 ('sign-bool', 'f', 'int z%s; _Bool signed ub%s;', 1),
 ('sign-typedef', 'f', 'typedef int I%s; I%s unsigned ui%s; int z%s;', 1),
 ('sign-struct', 'f', 'unsigned struct US%s { int a; } us%s; int z%s;', 1),
 ('neg-array', 'f', 'int na%s[-1]; int z%s;', 1),
 ('nonconst-init', 'f', 'int nv%s; int nw%s = nv%s + 1; int z%s;', 1),
 ('nonconst-bits', 'f', 'struct { int a : 40; } nb%s; int z%s;', 1),
 ('bitfield-float', 'f', 'struct { double a : 4; } nf%s; int z%s;', 1),
 ('func-array', 'f', 'int fa%s(void)[3]; int z%s;', 1),
 ('param-noname', 'f', 'int fp%s(int) { return 1 } int z%s;', 1),
 ('static-assert-f', 'f', '_Static_assert(1 == 2, "no%s"); int z%s;', 1),
 ('stray-brace', 'f', '} int z%s;', 1),
 ('garbage', 'f', ') ( int z%s;', 1),
 ('two-types', 'f', 'int double tt%s; int z%s;', 1),
 ('three-longs', 'f', 'long long long tl%s; int z%s;', 1),
 ('signed-unsigned', 'f', 'signed unsigned su%s; int z%s;', 1),
 ('init-string', 'f', 'int is%s[] = 3; int z%s;', 1),
 ('designator', 'f', 'int de%s[2] = { [5] = 1 }; int z%s;', 1),
 ('alignas', 'f', 'int al%s __attribute__((aligned(3))); int z%s;', 1),
 ('open-brace', 'e', 'int ob%s(void) { return 1;', 0),
 ('open-comment', 'e', '/* never closed %s', 0),
 ('open-if', 'e', '#if 1', 0),
 ('open-if-else', 'e', '#if 0\n#else', 0),
 ('open-ifndef', 'e', '#ifndef ZZ%s', 0),
 ('open-elif', 'e', '#if 0\n#elif 1', 0),
 ('open-paren', 'e', 'int op%s = (1 +', 0),
 ('open-string', 'e', 'char *os%s = "abc', 0),
]


# found only when the file that includes the header goes on
AT_END = {'open-brace', 'open-paren', 'undef-label', 'dup-case', 'dup-case-u'}
# the tokens of an inline function are collected up to its closing brace first
UNBALANCED = {'missing-paren', 'unterminated-char', 'unterminated-string'}


class Layout:
    """a set of files, each with a constructor and functions; main in one of them"""

    def __init__(self, rng, d):
        self.d, self.rng = d, rng
        n = rng.choice([1, 1, 2, 2, 3, 4])
        self.names = []
        for i in range(n):
            self.names.append(rng.choice(['m%d.c', 'm%d.c', 's/m%d.c', 'a b%d.c', 'x.y%d.c', './q%d.c']) % i)
        self.main = rng.randrange(n)
        self.lines = []
        for i in range(n):
            L = ['extern int printf(const char *, ...);', 'extern int creat(const char *, unsigned);']
            for k in range(rng.randrange(0, 6)):
                L.append(rng.choice(['/* comment', '', '#define K%d_%d %d' % (i, k, k), 'static int s%d_%d = %d;' % (i, k, k), '// line', 'int arr%d_%d[] = {\n 1,\n 2,\n 3 };' % (i, k),
                                     '#define LONG%d_%d(x) x + \\\n 1 + \\\n 2' % (i, k), 'static inline int in%d_%d(int a)\n{\n  return a + 1;\n}' % (i, k),
                                     'extern char *str%d_%d;\nchar *str%d_%d = "a\\\nb"\n "c";' % (i, k, i, k)]))
                if L[-1] == '/* comment':
                    L[-1] = '/* comment\n over %d\n lines */' % k
            L.append('__attribute__((constructor)) static void ctor%d(void) { creat("canary", 0600); }' % i)
            L.append('int f%d(int a)' % i)
            L.append('{')
            L.append('    int r = a + %d;' % i)
            L.append('    /*BODY*/')
            L.append('    return r;')
            L.append('}')
            if i == self.main:
                L += ['int main(int argc, char **argv)', '{', '    int r = argc;'] + \
                     ['    { extern int f%d(int); r += f%d(%d); }' % (k, k, k) for k in range(n)] + \
                     ['    printf("ran %d\\n", r);', '    creat("canary", 0600);', '    return 0;', '}']
            L.append('/*END*/')
            self.lines.append('\n'.join(L).split('\n'))

    def place(self, name, kind, text, i):
        """puts the defect in file i; returns (name of the file that has it, line)"""
        rng = self.rng
        u = '_%d' % rng.randrange(1000)
        n = text.replace('%%', '').count('%s')
        t = text % ((u,) * n) if n else text.replace('%%', '%')
        L = self.lines[i]
        if kind in 'be':
            at = L.index('    /*BODY*/') if kind == 'b' else L.index('/*END*/')
        elif kind == 'd' and rng.random() < .3:
            at = L.index('    /*BODY*/')
        else:
            cand = [k for k, l in enumerate(L) if l.startswith(('__attribute__((constructor))', 'int f', '/*END*/'))]
            at = rng.choice(cand)
        # optionally in a header included at that place, up to three deep; or inside an inline function that is used
        depth = rng.choice([0, 0, 0, 1, 2, 3]) if kind != 'e' or rng.random() < .5 else 0
        if kind == 'b' and rng.random() < .15 and '\n' not in t and name not in UNBALANCED:
            k = [k for k, l in enumerate(L) if l.startswith('int f')][0]
            pre = ['static inline int used%s(int a)' % u, '{', '    int z = a;', '', '    ' + t, '    return z;', '}']
            L[k:k] = pre
            L[L.index('    /*BODY*/')] = '    r += used%s(r);' % u
            return self.names[i], k + 5
        fname = self.names[i]
        pad = ['/* pad', 'pad */', ''][:rng.randrange(4)]
        if len(pad) == 1:
            pad = ['// pad']
        body = pad + t.split('\n')
        first = len(pad) + 1
        if kind == 'e':
            L.remove('/*END*/')
        if depth == 0:
            L[at:at] = body
            return fname, at + first
        for k in range(depth):
            h = 'h%d%s.h' % (k, u)
            path = os.path.join(os.path.dirname(fname), h)
            self.headers.append((path, '\n'.join(body) + '\n'))
            if k == 0:
                res = (path, first)
            body = ['/* to the next */', '#include "%s"' % h, 'int after%s_%d;' % (u, k) if kind != 'e' else '']
        # a conditional opened before the #include is no business of the header
        L[at:at] = ['#if 1'] * (name in ('endif-alone', 'else-alone', 'elif-alone')) + body[1:2] + ['#endif'] * (name in ('endif-alone', 'else-alone', 'elif-alone'))
        return res

    headers = ()

    def write(self):
        for n, L in zip(self.names, self.lines):
            p = os.path.join(self.d, n)
            os.makedirs(os.path.dirname(p), exist_ok=True)
            open(p, 'w').write('\n'.join(L) + '\n')
        for n, t in self.headers:
            open(os.path.join(self.d, n), 'w').write(t)

    def files(self):
        out = {}
        for n in self.names + [h for h, _ in self.headers]:
            p = os.path.join(self.d, n)
            if os.path.isfile(p):
                out[n] = open(p, 'rb').read()
        return out


def snapshot(d):
    s = set()
    for r, ds, fs in os.walk(d):
        for f in fs:
            s.add(os.path.relpath(os.path.join(r, f), d))
    return s


def command(ctx, b, rng, lay, mode):
    """(argv, stdin) for the mode"""
    order = list(range(len(lay.names)))
    opts = rng.choice([['-q'], [], ['-q'], ['-v'], ['-q', '-g'], ['-DX=1'], ['--verb'], ['-q', '-O2', '-Wall']])
    fs = [lay.names[k] for k in order]
    rng.shuffle(fs)
    if mode == 'run':
        return opts + fs, None
    if mode == 'run-args':
        return opts + fs + ['--', 'a', 'b'], None
    if mode == 'exe':
        return opts + rng.choice([fs + ['-o', 'outfile'], ['-o', 'outfile'] + fs]), None
    if mode == 'shared':
        return opts + ['-C-shared'] + fs + ['-o', 'outfile'], None
    raise ValueError(mode)


def verdict(ctx, key, what, lay, d, cmd, r, before, where=None, kindline=0, allow=(), stdin=None):
    after = snapshot(d)
    files = dict(lay.files()) if lay else {}
    files.update({'cmd.txt': 'cjit %s\n' % ' '.join(cmd), 'stdout.txt': r.out, 'stderr.txt': r.err})
    if stdin is not None:
        files['stdin.txt'] = stdin
    line = 'cjit %s (%s)' % (' '.join(cmd), what)
    kind = key.split(':')[0]
    if 'canary' in after or b'ran ' in r.out:
        ctx.violation(key, '%s: the program ran' % line, files)
        return False
    if r.timeout:
        ctx.violation(key, '%s: does not end' % line, files)
        return False
    if r.rc == 0:
        ctx.violation(key, '%s: exit status 0' % line, files)
        return False
    if r.rc < 0:
        ctx.violation(key, '%s: ends with status %d' % (line, r.rc), files)
        return False
    new = {f for f in after - before if f not in allow}
    if new:
        ctx.violation(key, '%s: leaves %s behind' % (line, sorted(new)), files)
        return False
    err = re.sub(r'(?m)^cjit version.*\n?|^entry function.*\n?', '', r.etext)
    if not err.strip():
        ctx.violation(key, '%s: no diagnostic' % line, files)
        return False
    if where is not None:
        name, ln = where
        m = re.findall(r'(?m)^(?:In file included from .*\n)*(.*?):(\d+): error', r.etext)
        base = os.path.basename(name)
        if kindline and (not m or os.path.basename(m[0][0]) != base or int(m[0][1]) != ln):
            ctx.violation(key, '%s: the defect is at %s:%d, the diagnostic says %s' % (line, name, ln, r.etext[:300]), files)
            return False
        if not kindline and base not in r.etext and (base.endswith('.c') or kind.split('-', 1)[1].split('/')[0] not in AT_END):
            ctx.violation(key, '%s: the diagnostic does not name %s: %s' % (line, name, r.etext[:300]), files)
            return False
    return True


def compile_case(ctx, b, k):
    rng = ctx.rand('comp', k)
    d = ctx.sub('c%d' % k)
    lay = Layout(rng, d)
    lay.headers = []
    name, kind, text, lineinfo = CAT[k % len(CAT)]
    ctl = None
    if k % 5 == 0:
        # control: the same layout without defect runs
        lay.write()
        cmd, _ = command(ctx, b, ctx.rand('ctl', k), lay, 'run')
        r = run_wd([b.cjit] + cmd, cwd=d, env=b.env())
        ok = r.rc == 0 and b'ran ' in r.out and 'canary' in snapshot(d)
        ctx.obs('controls_ran' if ok else 'controls_failed')
        if not ok:
            ctx.violation('control', 'a program without defect does not run: cjit %s: exit %s %s' % (' '.join(cmd), r.rc, r.etext[:300]), lay.files())
            return
        os.unlink(os.path.join(d, 'canary'))
    bad = rng.randrange(len(lay.names))
    name_line = lay.place(name, kind, text, bad)
    ln = name_line[1] + (max(lineinfo, 1) - 1)
    where = (name_line[0], ln)
    lay.write()
    modes = ['run', 'exe', 'obj', 'stdin', 'run-args', 'dash', 'objname', 'shared']
    for mode in rng.sample(modes, 3) + ['run']:
        before = snapshot(d)
        src = os.path.join(d, lay.names[bad])
        stdin = None
        if mode in ('stdin', 'dash'):
            stdin = open(src, 'rb').read()
            others = [n for i, n in enumerate(lay.names) if i != bad]
            if mode == 'stdin':
                if others:
                    continue
                cmd = ['-q']
            else:
                cmd = ['-q'] + others
                cmd.insert(rng.randrange(1, len(cmd) + 1), '-')
            if name_line[0] != lay.names[bad] and os.path.dirname(lay.names[bad]) not in ('', '.'):
                cmd[1:1] = ['-I', os.path.dirname(lay.names[bad])]
        elif mode == 'obj':
            cmd = ['-c', lay.names[bad]]
        elif mode == 'objname':
            cmd = ['-c', lay.names[bad], '-o', 'out.o']
        else:
            cmd, _ = command(ctx, b, rng, lay, mode)
        r = run_wd([b.cjit] + cmd, cwd=d, env=b.env(), input=stdin)
        ctx.case('%s/%s/%d' % (name, mode, k))
        ctx.obs('mode_' + mode)
        ctx.distinct('error_kind', name)
        w = where
        if stdin is not None and name_line[0] == lay.names[bad]:
            # the name of standard input is cjit's own choice; the line is not
            m = re.search(r'(?m)^(.*?):(\d+): error', r.etext)
            w = (m.group(1), where[1]) if m else where
        if not verdict(ctx, 'compile-%s/%s:%d' % (name, mode, k), name + ' in ' + where[0], lay, d, cmd, r, before, w, lineinfo, stdin=stdin):
            break
        ctx.obs('lines_checked', 1 if lineinfo else 0)
    core.shutil.rmtree(d, ignore_errors=True)


LINK = ['undef-func', 'undef-var', 'undef-data', 'dup-func', 'dup-var', 'no-main', 'no-entry', 'undef-in-ctor', 'static-elsewhere', 'undef-asm', 'tls']


def link_case(ctx, b, k):
    rng = ctx.rand('link', k)
    d = ctx.sub('l%d' % k)
    lay = Layout(rng, d)
    lay.headers = []
    kind = LINK[k % (len(LINK) - 1)]
    i = rng.randrange(len(lay.names))
    L = lay.lines[i]
    body = L.index('    /*BODY*/')
    sym, extra = None, []
    if kind == 'undef-func':
        sym = 'nowhere_f'
        L[body] = '    { extern int nowhere_f(int); if (r == 12345) r += nowhere_f(r); }'
    elif kind == 'undef-var':
        sym = 'nowhere_v'
        L[body] = '    { extern int nowhere_v; if (r == 12345) r += nowhere_v; }'
    elif kind == 'undef-data':
        sym = 'nowhere_d'
        L.insert(L.index('/*END*/'), 'extern int nowhere_d; int *ptr_d = &nowhere_d;')
    elif kind == 'undef-in-ctor':
        sym = 'nowhere_c'
        L.insert(L.index('/*END*/'), 'extern void nowhere_c(void); __attribute__((constructor)) static void c2(void) { nowhere_c(); }')
    elif kind == 'undef-asm':
        sym = 'nowhere_a'
        L[body] = '    if (r == 12345) __asm__("call nowhere_a");'
    elif kind in ('dup-func', 'dup-var'):
        lay.names.append('extra.c')
        t = 'int f%d(int a) { return 7; }' % i if kind == 'dup-func' else 'int dupv = 3;'
        if kind == 'dup-var':
            L.insert(L.index('/*END*/'), 'int dupv = 4;')
        sym = 'f%d' % i if kind == 'dup-func' else 'dupv'
        lay.lines.append([t])
    elif kind == 'no-main':
        j = lay.main
        lay.lines[j] = [l.replace('int main(', 'int notmain(') for l in lay.lines[j]]
        sym = 'main'
    elif kind == 'no-entry':
        extra = ['-e', 'no_such_entry']
        sym = 'no_such_entry'
    elif kind == 'static-elsewhere':
        L.insert(L.index('/*END*/'), 'static int hidden_s(int a) { return a; } int use_s(void) { return hidden_s(1); }')
        lay.names.append('extra.c')
        lay.lines.append(['extern int hidden_s(int); int user_s(void) { return hidden_s(2); }'])
        sym = 'hidden_s'
    lay.write()
    modes = ['run', 'exe', 'run-args']
    if kind == 'no-entry':
        modes = ['run', 'run-args']
    for mode in modes:
        before = snapshot(d)
        cmd, _ = command(ctx, b, rng, lay, mode)
        cmd = extra + cmd
        r = run_wd([b.cjit] + cmd, cwd=d, env=b.env())
        ctx.case('%s/%s/%d' % (kind, mode, k))
        ctx.obs('mode_link_' + mode)
        ctx.distinct('error_kind', kind)
        if not verdict(ctx, 'link-%s/%s:%d' % (kind, mode, k), kind, lay, d, cmd, r, before):
            break
        if sym and sym not in r.etext:
            ctx.violation('link-%s/%s:%d' % (kind, mode, k), 'cjit %s (%s): the diagnostic does not name %s: %s' % (' '.join(cmd), kind, sym, r.etext[:300]), lay.files())
            break
    core.shutil.rmtree(d, ignore_errors=True)


def inputs(rng, d, b):
    """(what, file name, bytes or None/'dir') that no compiler can take for a source or object"""
    c = b'extern int creat(const char *, unsigned);\n__attribute__((constructor)) void cc(void) { creat("canary", 0600); }\nint f(void) { return 1; }\n'
    t = c.decode()
    yield 'missing', 'gone.c', None
    yield 'missing-dir', 'no/such/gone.c', None
    yield 'missing-object', 'gone.o', None
    yield 'missing-archive', 'gone.a', None
    yield 'missing-noext', 'gone', None
    yield 'directory', 'dir.c', 'dir'
    yield 'directory-o', 'dir.o', 'dir'
    yield 'dangling', 'dang.c', 'dangling'
    yield 'loop', 'loop.c', 'loop'
    yield 'utf16le', 'u16.c', b'\xff\xfe' + t.encode('utf-16-le')
    yield 'utf16be', 'u16b.c', b'\xfe\xff' + t.encode('utf-16-be')
    yield 'utf32le', 'u32.c', b'\xff\xfe\0\0' + t.encode('utf-32-le')
    yield 'utf32be', 'u32b.c', b'\0\0\xfe\xff' + t.encode('utf-32-be')
    yield 'elf-garbage', 'g.o', b'\x7fELF' + bytes(rng.getrandbits(8) for _ in range(200))
    yield 'elf-header-only', 'h.o', b'\x7fELF\x02\x01\x01' + bytes(9) + struct.pack('<HHIQQQIHHHHHH', 1, 62, 1, 0, 0, 0, 0, 64, 0, 0, 64, 0, 0)
    open(os.path.join(d, 't.c'), 'wb').write(c)
    run(['gcc', '-c', 't.c', '-o', 'tt.o'], cwd=d)
    o = open(os.path.join(d, 'tt.o'), 'rb').read()
    yield 'truncated-object', 'tr.o', o[:rng.randrange(70, len(o) - 40)]
    yield 'truncated-object-short', 'trs.o', o[:rng.randrange(5, 64)]
    m = bytearray(o); m[18:20] = struct.pack('<H', 183)
    yield 'foreign-machine', 'arm.o', bytes(m)
    m = bytearray(o); m[4] = 1
    yield 'elf32', 'e32.o', bytes(m)
    run(['ar', 'rcs', 'tt.a', 'tt.o'], cwd=d)
    a = open(os.path.join(d, 'tt.a'), 'rb').read()
    yield 'archive-garbage', 'ga.a', b'!<arch>\n' + bytes(rng.getrandbits(8) for _ in range(150))
    yield 'random-object', 'ro.o', bytes(rng.getrandbits(8) for _ in range(300))
    yield 'text-object', 'to.o', b'this is not an object file\n'
    yield 'binary-source', 'bs.c', bytes(rng.getrandbits(8) | 128 for _ in range(300))
    yield 'nul-source', 'ns.c', b'\0' * 40 + c
    os.unlink(os.path.join(d, 'tt.o')); os.unlink(os.path.join(d, 'tt.a')); os.unlink(os.path.join(d, 't.c'))


def input_case(ctx, b, k):
    rng = ctx.rand('inp', k)
    d = ctx.sub('i%d' % k)
    for what, fn, data in list(inputs(rng, d, b)):
        lay = Layout(rng, d)
        lay.headers = []
        lay.write()
        p = os.path.join(d, fn)
        if data == 'dir':
            os.makedirs(p, exist_ok=True)
        elif data == 'dangling':
            os.symlink('nowhere.c', p)
        elif data == 'loop':
            os.symlink(fn, p)
        elif data is not None:
            open(p, 'wb').write(data)
        for mode in ('run', 'exe', 'obj'):
            fs = list(lay.names)
            fs.insert(rng.randrange(len(fs) + 1), fn)
            before = snapshot(d)
            if mode == 'obj':
                if not fn.endswith('.c'):
                    continue
                cmd = ['-c', fn]
            elif mode == 'exe':
                cmd = ['-q'] + fs + ['-o', 'outfile']
            else:
                cmd = rng.choice([['-q'], []]) + fs
            r = run_wd([b.cjit] + cmd, cwd=d, env=b.env())
            ctx.case('%s/%s/%d' % (what, mode, k))
            ctx.obs('mode_input_' + mode)
            ctx.distinct('error_kind', what)
            if not verdict(ctx, 'input-%s/%s' % (what, mode), what, lay, d, cmd, r, before):
                core.shutil.rmtree(d, ignore_errors=True)
                os.makedirs(d)
                lay.write()
        for q in list(os.listdir(d)):
            q = os.path.join(d, q)
            if os.path.isdir(q) and not os.path.islink(q):
                core.shutil.rmtree(q)
            else:
                os.unlink(q)
    core.shutil.rmtree(d, ignore_errors=True)


def corpus(ctx, b):
    cd = os.path.join(core.VERIF, 'corpus', 'c06')
    for f in sorted(os.listdir(cd)):
        d = ctx.sub('k')
        core.shutil.copyfile(os.path.join(cd, f), os.path.join(d, f))
        r = run_wd([b.cjit, '-q', f], cwd=d, env=b.env())
        ctx.case('corpus-' + f[:-2])
        verdict(ctx, 'corpus-' + f[:-2], f, None, d, ['-q', f], r, snapshot(d))
        core.shutil.rmtree(d)


def check(ctx):
    b = build.build(ctx, 'plain')
    b.warm()
    corpus(ctx, b)
    jobs = [(compile_case, k) for k in range(ctx.n(9 * len(CAT), 80 * len(CAT)))]
    jobs += [(link_case, k) for k in range(ctx.n(40, 1500))]
    jobs += [(input_case, k) for k in range(ctx.n(4, 100))]
    ctx.rand('order').shuffle(jobs)
    pmap(lambda j: j[0](ctx, b, j[1]), jobs)
    if not ctx.counts.get('controls_ran'):
        raise core.HarnessError('no control ran')
