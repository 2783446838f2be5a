"""C11 whole source text: features placed across every offset of the reader's buffer boundary,
line shapes, endings and delivery channels; expected output known by construction."""
import os, re, subprocess, threading, time
from .. import core, build

RULE = ('A case is one generated source text (features at chosen offsets around multiples of the read size, line shapes, endings, sizes) delivered through one channel '
        '(file, include, standard input by file or by a pipe written in chunks, executable); every value it prints, or the line of its one error, is known in advance. '
        'Non-trivial: the text is longer than one read buffer or uses an unusual shape.')
ASSUMPTIONS = ['NUL bytes, lone carriage returns, a backslash followed by blanks and a backslash at the very end of the file are not generated',
               '__LINE__ is only asked for on lines that are not spliced']
BUF = 8192


def fnv(bs):
    h = 2166136261
    for c in bs:
        h = ((h ^ c) * 16777619) & 0xffffffff
    return h


HEAD = '''#include <stdio.h>
#include <string.h>
static unsigned H(const char *s, unsigned n) { unsigned h = 2166136261u; while (n--) h = (h ^ (unsigned char)*s++) * 16777619u; return h; }
static void P(int id, long v) { printf("%d %ld\\n", id, v); }
#define S(id, s) printf("%d %u %u\\n", id, (unsigned)sizeof(s) - 1, H(s, sizeof(s) - 1))
#define CAT_(a, b) a##b
#define CAT(a, b) CAT_(a, b)
#define STR(x) #x
#define ADD(a, b, c) ((a) + (b) * (c))
'''


class Gen:
    def __init__(self, rng, crlf):
        self.rng = rng
        self.b = bytearray(HEAD.encode() + b'int main(void) {\n')
        self.exp = []
        self.n = 0
        self.hdr = {}
        self.crlf = crlf
        if crlf:
            self.b = bytearray(bytes(self.b).replace(b'\n', b'\r\n'))

    def line(self):
        return self.b.count(b'\n') + 1

    def put(self, s):
        if isinstance(s, str):
            s = s.encode('latin-1')
        if self.crlf:
            s = s.replace(b'\n', b'\r\n')
        self.b += s

    def fill(self, n):
        """n bytes that mean nothing; starts and ends at the start of a line if n > 0"""
        rng = self.rng
        nl = b'\r\n' if self.crlf else b'\n'
        end = len(self.b) + n
        while len(self.b) < end:
            left = end - len(self.b)
            if left < 12:
                # a short rest: blanks (the line is continued)
                self.b += b' ' * left
                break
            k = min(left, rng.choice([12, 40, 40, 200, 1000, 5000, 20000]))
            kind = rng.choice('clbsnq')
            w = k - len(nl)
            if kind == 'c':
                body = bytes(rng.choice(b'abc *"\'/\\#\t') for _ in range(w - 4)).replace(b'*/', b'* ').replace(b'\\', b'x')
                body = body[:w - 4].ljust(w - 4, b'*').replace(b'*/', b'**')
                if body.endswith(b'/') or body.startswith(b'/'):
                    body = b'x' + body[1:-1] + b'x'
                s = b'/*' + body + b'*/' + nl
            elif kind == 'l':
                s = b'//' + bytes(rng.choice(b'abc *"\'/# ') for _ in range(w - 2)) + nl
            elif kind == 'b':
                s = b' ' * w + nl
            elif kind == 's':
                s = bytes(rng.choice(b' \t\f\v') for _ in range(w)) + nl
            elif kind == 'n':
                s = nl * (k // len(nl))
            else:
                q = b'if (0) P(0, "' + b'z' * max(0, w - 20) + b'"[0]);'
                if len(q) != w:
                    q = b';' * w
                s = q + nl
            self.b += s

    def place(self, off):
        """the next byte goes to offset -off from a multiple of the buffer size"""
        cur = len(self.b)
        tgt = ((cur + off + 1) // BUF + 1) * BUF - off
        self.fill(tgt - cur)

    def e(self, *v):
        self.exp.append(' '.join(str(x) for x in v))

    def feature(self, k):
        rng = self.rng
        self.n += 1
        i = self.n
        f = FEATURES[k]
        f(self, i, rng)


def f_ident(g, i, r):
    n = 'v%d_' % i + ''.join(r.choice('abcXYZ_019') for _ in range(r.choice([1, 10, 60])))
    g.put('{ int %s = %d; P(%d, %s + 1); }\n' % (n, i, i, n))
    g.e(i, i + 1)


def f_idlong(g, i, r):
    n = 'w%d_' % i + 'q' * r.choice([300, 1000, 5000, 9000, 20000])
    g.put('{ int %sa = %d, %sb = 3; P(%d, %sa * 10 + %sb); }\n' % (n, i, n, i, n, n))
    g.e(i, i * 10 + 3)


def f_string(g, i, r):
    s = bytes(r.choice([c for c in range(1, 256) if c not in (10, 13, 34, 92)]) for _ in range(r.choice([1, 20, 60])))
    g.put(b'S(%d, "' % i + s + b'");\n')
    g.e(i, len(s), fnv(s))


def f_strlong(g, i, r):
    s = bytes(r.choice(b'abcdef //*/*" \''.replace(b'"', b'')) for _ in range(r.choice([500, 4000, 9000, 17000, 70000])))
    g.put(b'S(%d, "' % i + s + b'");\n')
    g.e(i, len(s), fnv(s))


def f_escape(g, i, r):
    parts = [(r'\n', b'\n'), (r'\"', b'"'), (r'\\', b'\\'), (r'\x41', b'A'), (r'\101', b'A'), (r'\t', b'\t'), (r"\'", b"'"), (r'\0', b'\0'), (r'\177', b'\177'), ('a', b'a'), (r'\a', b'\a'), ('/*', b'/*'), ('//', b'//')]
    p = [r.choice(parts) for _ in range(12)]
    # an octal or hex escape may not run into a digit
    txt, val = '', b''
    for a, v in p:
        txt += a
        val += v
        if a.startswith(r'\x') or a == r'\0' or a[1:].isdigit():
            txt += 'z'
            val += b'z'
    g.put('S(%d, "%s");\n' % (i, txt))
    g.e(i, len(val), fnv(val))


def f_splice(g, i, r):
    """one statement cut by backslash-newline at random places, inside tokens too"""
    a, b = r.randrange(1000), r.randrange(1000)
    s = 'P(%d, ADD(%d, %d, 3) == %d ? 0x%x : -1); S(%d, "ab%dcd//e/*f"); /* c * / " */' % (i, a, b, a + 3 * b, i, i, a)
    o = ''
    for c in s:
        o += c
        if r.random() < .3:
            o += '\\\n' * r.choice([1, 1, 2, 5])
    g.put(o + '\n')
    g.e(i, i)
    v = b'ab%dcd//e/*f' % a
    g.e(i, len(v), fnv(v))


def f_splops2(g, i, r):
    s = '{ int x = 5; x <<= 2; x >>= 1; x -= 1; int y = x >= 9 && x != 8 || x <= 1 ? 7 : 8; x |= 64; x ^= 1; P(%d, x + y); struct { int m; } t = { x }, *q = &t; P(%d, q->m * 1.5e+1 / 3.); }' % (i, i)
    o = ''
    for c in s:
        o += c
        if r.random() < .25:
            o += '\\\n'
    g.put(o + '\n')
    v = (9 | 64) ^ 1
    g.e(i, v + 7)
    g.e(i, int(v * 15 / 3))


def f_line(g, i, r):
    g.put('P(%d, __LINE__);\n' % i)
    g.e(i, g.line() - 1)


def f_lines(g, i, r):
    """__LINE__ after a spliced line, a multi-line comment, a multi-line macro call"""
    g.put(r.choice(['int u%d = \\\n\\\n 3;\n', '/* a\n b\n * c\n **/ int u%d;\n', '// note \\\n still a comment \\\n " unbalanced \n int u%d;\n', 'int u%d = ADD(1,\n 2,\n\n 3\n);\n', '#define M%d(x) x + \\\n x\n']) % i)
    g.put('P(%d, __LINE__);\n' % i)
    g.e(i, g.line() - 1)


def f_comment(g, i, r):
    g.put('P(/*%s*/%d/**/,/***/ 4%s\n);\n' % (r.choice(['*', '**', '/', '//', '"', "'", ' \n ', '*\n*', '\\\n', '\\', ' /* ', '* /', 'x' * 50]), i, r.choice(['/*', '// x */ ', '// \\', ' // "', '//']) if 0 else r.choice(['// x */', '// "', '//', '/**/', "// '", '//\\\n)'])))
    g.e(i, 4)


def f_number(g, i, r):
    n = r.choice([('0x%x' % (r.getrandbits(40)), None), ('%d' % r.getrandbits(50), None), ('0%o' % r.getrandbits(30), None), ("'%c'" % r.choice('abz"0 '), None), (r"'\x7f'", 127), ('0b1011', 11), ('1e3', 1000), ('12345.5e1', 123455), ('0x1p8', 256), ("L'x'", 120)])
    t = n[0]
    v = n[1] if n[1] is not None else ord(t[1]) if t[0] == "'" else int(t, 16) if t.startswith('0x') else int(t, 8) if t[0] == '0' and len(t) > 1 else int(t)
    g.put('P(%d, %s);\n' % (i, t))
    g.e(i, v)


def f_define(g, i, r):
    a = r.randrange(99)
    g.put('#%sdefine%sQ%d%s(x,%sy) \\\n (x * %d \\\n + y) /* c\n c */ + 0 // %s\nP(%d, Q%d(2, 3));\n' % (r.choice(['', ' ', '\\\n', '/**/ ']), r.choice([' ', '\t', ' \\\n']), i, '', r.choice(['', ' ', '\\\n']), a, r.choice(['x', '"', "don't"]), i, i))
    g.e(i, 2 * a + 3)


def f_skip(g, i, r):
    n = r.choice([1, 3, 40, 600])
    body = ''.join(r.choice(["don't \" /* x */\n", '#if 1\n#else\n#endif\n', '# nonsense\n', '"abc\n', '\\\n#else\n' if 0 else 'x \\\n#else\n', '// #endif\n', '/*\n#endif\n*/\n', '#ifdef A\n#elif B\n#endif\n', "L'a\n", '`@$\n']) for _ in range(n))
    g.put('#if 0\n%s#else\nP(%d, __LINE__);\n#endif\n' % (body, i))
    g.e(i, g.line() - 2)


def f_macroargs(g, i, r):
    g.put('P(%d, ADD(%s1%s,%s2 /* , */ %s,%s(3, 4)%s));\n' % ((i,) + tuple(r.choice(['', ' ', '\n', '\n\n', '/*\n*/', ' \\\n']) for _ in range(6))))
    g.e(i, 9)


def f_stringize(g, i, r):
    g.put('S(%d, STR(a%s+%s"x\\n"%s/* c */b));\n' % ((i,) + tuple(r.choice([' ', '  ', '\n', ' \\\n ', '\t/**/\t']) for _ in range(3))))
    v = rb'a + "x\n" b'
    g.e(i, len(v), fnv(v))


def f_paste(g, i, r):
    g.put('{ int CAT(zz%s,%s%d) = %d; P(%d, zz%d); }\n' % (r.choice(['', ' ', '\n']), r.choice(['', ' ', '\n']), i, i + 5, i, i))
    g.e(i, i + 5)


def f_concat(g, i, r):
    parts = [bytes(r.choice(b'abcXYZ /*') for _ in range(r.choice([0, 3, 30]))) for _ in range(4)]
    g.put(b'S(%d, ' % i + b''.join(b'"' + p + b'"' + r.choice([b'', b' ', b'\n', b'/**/', b'\n\n']) for p in parts) + b');\n')
    v = b''.join(parts)
    g.e(i, len(v), fnv(v))


def f_include(g, i, r):
    """a header of unusual shape; it leaves the lines of this file alone"""
    nm = 'h%d_%s.h' % (i, 'x' * r.choice([0, 0, 30, 150]))
    pad = r.choice([0, 10, BUF - 60, BUF - 30, BUF, 3 * BUF + 7])
    body = b'/*' + b'-' * pad + b'*/\n' if pad else b''
    body += b'static int hv%d = %d;' % (i, i)
    endk = r.choice([b'\n', b'', b' // no newline', b' /* c */', b'\n#define hq%d 1' % i, b'\n#ifndef zz\n#endif', b'\r\n', b'\n\n\n', b'\t', b'\n#if 0\n#else\n#endif //x'])
    if g.crlf or r.random() < .2:
        body = body.replace(b'\r\n', b'\n').replace(b'\n', b'\r\n')
    g.hdr[nm] = body + endk
    g.put('#include %s\nP(%d, hv%d * 1000000L + __LINE__);\n' % (r.choice(['"%s"', '"%s" // c', '"%s"/* c */']) % nm, i, i))
    g.e(i, i * 1000000 + g.line() - 1)


def f_longline(g, i, r):
    n = r.choice([200, 2000, 9000])
    g.put('P(%d, 0%s);\n' % (i, ' + 1' * n))
    g.e(i, n)


def f_charlit(g, i, r):
    c = r.choice([x for x in range(32, 127) if x not in (39, 92)])
    g.put(b"P(%d, '%c' + '\\'' + '\"' + '\\\\');\n" % (i, c))
    g.e(i, c + 39 + 34 + 92)


def f_ws(g, i, r):
    t = ['P', '(', '%d' % i, ',', '3', '+', '+', '4', ')', ';']
    g.put(''.join(x + r.choice([' ', '\t', '\f', '\v', '\n', '\n\n', ' \t ', '\\\n ']) for x in t) + '\n')
    g.e(i, 7)


def f_manylines(g, i, r):
    n = r.choice([100, 5000, 33000])
    g.put('\n' * n + 'P(%d, __LINE__);\n' % i)
    g.e(i, g.line() - 1)


FEATURES = [f_ident, f_string, f_escape, f_splice, f_splops2, f_line, f_lines, f_comment, f_number, f_define, f_skip, f_macroargs, f_stringize, f_paste, f_concat, f_include, f_charlit, f_ws]
BIG = [f_idlong, f_strlong, f_longline, f_manylines]
ENDS = [b'\n', b'', b' // end', b' /* end */', b'\n#if 0\n#endif', b'\n\n\n', b'\n#define LAST 1', b' \t', b'\n/* x */', b'\n//', b'\n#ifndef ZZZ\n#else\n#endif // c', b'\n\f\n ']


def check(ctx):
    b = build.build(ctx, 'plain')
    a = build.build(ctx, 'asan')

    def deliver(bb, d, name, data, channel, rng):
        env = bb.env()
        p = os.path.join(d, name)
        if channel == 'include':
            with open(p + '.inc', 'wb') as f:
                f.write(data)
            with open(p, 'wb') as f:
                f.write(b'#include "%s.inc"' % name.encode() + rng.choice([b'\n', b'']))
        else:
            with open(p, 'wb') as f:
                f.write(data)
        cmd = [bb.cjit, '-q']
        if channel in ('file', 'include'):
            return core.run_wd(cmd + [rng.choice([p, name, './' + name])], cwd=d, env=env, timeout=30)
        if channel == 'exe':
            r = core.run_wd(cmd + ['-o', 'x.exe', name], cwd=d, env=env, timeout=30)
            if r.rc == 0 and os.path.exists(os.path.join(d, 'x.exe')):
                r2 = core.run_wd([os.path.join(d, 'x.exe')], timeout=30)
                os.unlink(os.path.join(d, 'x.exe'))
                return r2
            return r
        inc = ['-I' + d] + rng.choice([[], ['-']])
        if channel == 'stdin':
            with open(p, 'rb') as f:
                return core.run_wd(cmd + inc, cwd=d, env=env, stdin=f, timeout=30)
        # a pipe written in chunks
        rfd, wfd = os.pipe()

        def feed():
            try:
                pos = 0
                mode = rng.choice(['one', 'small', 'big', 'line', 'pause'])
                while pos < len(data):
                    n = {'one': 1 if pos < 300 or pos > len(data) - 300 else 4096, 'small': rng.randrange(1, 700), 'big': 65536, 'line': max(1, data.find(b'\n', pos) + 1 - pos), 'pause': 4096}[mode]
                    os.write(wfd, data[pos:pos + n])
                    pos += n
                    if mode == 'pause' and rng.random() < .2:
                        time.sleep(.002)
            except OSError:
                pass
            finally:
                os.close(wfd)
        t = threading.Thread(target=feed)
        t.start()
        r = core.run(cmd + inc, cwd=d, env=env, stdin=rfd, timeout=60)
        os.close(rfd)
        t.join()
        return r

    def one(j):
        rng = ctx.rand('t', j)
        d = ctx.sub('c%d' % j)
        crlf = rng.random() < .3
        g = Gen(rng, crlf)
        off = j % 64
        feats = list(range(len(FEATURES)))
        rng.shuffle(feats)
        if j % 3 == 2:
            feats = [rng.randrange(len(FEATURES)) for _ in range(30)]
        for n, k in enumerate(feats):
            if j % 3 != 2:
                g.place(off)
            elif rng.random() < .3:
                g.put('\n')
            if g.rng.random() < .1:
                g.put('\n')
            g.feature(k)
        if j % 4 == 3:
            for _ in range(2):
                if rng.random() < .5:
                    g.place(rng.randrange(64))
                g.n += 1
                rng.choice(BIG)(g, g.n, rng)
        err = None
        tail = 'return 0; }'
        if rng.random() < .25:
            g.put('\n')
            if rng.random() < .5:
                g.place(rng.randrange(40))
                g.put('\n')
            err = g.line()
            g.put(rng.choice(['undeclared_thing = 1;\n', 'int 5x;\n', 'P(1, 2;\n', '"abc;\n', '#error stop here\n', "P(1, 'a);\n", 'struct { int q; } z = { .r = 1 };\n', 'goto ;\n', '#include "no_such_file.h"\n', '#if (\n#endif\n']))
        g.put(tail)
        # pad to end at a boundary
        if rng.random() < .4:
            want = rng.choice([0, 1, 2, BUF - 1, BUF - 2])
            n = (want - len(g.b)) % BUF
            g.b += b' ' * n
        else:
            e = rng.choice(ENDS)
            g.b += e.replace(b'\n', b'\r\n') if crlf else e
        for n, t in g.hdr.items():
            with open(os.path.join(d, n), 'wb') as f:
                f.write(t)
        data = bytes(g.b)
        want = ''.join(x + '\n' for x in g.exp)
        for ch in (['file'] + rng.sample(['stdin', 'pipe', 'include', 'exe', 'pipe'], 2)):
            bb = a if rng.random() < .15 else b
            r = deliver(bb, d, 't.c', data, ch, rng)
            key = 'text-%d-%s' % (j, ch)
            rep = core.san_report(r.err)
            got = r.out.decode('latin-1')
            msg = None
            if rep:
                msg = 'sanitizer: ' + rep
            elif r.timeout:
                msg = 'hang'
            elif err is None:
                if r.rc != 0 or got != want:
                    w, q = want.split('\n'), got.split('\n')
                    dd = next((k for k in range(max(len(w), len(q))) if w[k:k + 1] != q[k:k + 1]), 0)
                    msg = 'exit %s, output differs: expected %r got %r; %s' % (r.rc, w[dd:dd + 1], q[dd:dd + 1], r.etext[-300:])
            else:
                m = re.search(r':(\d+): error', r.etext)
                if r.rc == 0 or got:
                    msg = 'the error on line %d went unnoticed: exit %s output %r' % (err, r.rc, got[:100])
                elif not m or int(m.group(1)) != err:
                    msg = 'the error is on line %d, reported: %s' % (err, r.etext[:300])
            if msg:
                ctx.violation(key, '%s (%s, %d bytes, crlf %s)' % (msg, ch, len(data), crlf), dict({'t.c': data, 'expected.txt': want, 'got.txt': r.out, 'err.txt': r.err}, **g.hdr))
            ctx.case(key, nontrivial=len(data) > BUF or crlf)
            ctx.obs('bytes_compiled', len(data))
            ctx.obs('values_checked' if err is None else 'error_lines_checked', len(g.exp) if err is None else 1)
            ctx.distinct('channel', ch)
            ctx.distinct('boundary_offset', off)
        for k in range(len(FEATURES)):
            ctx.distinct('features', FEATURES[k].__name__)
        if j < 2:
            ctx.sample({'bytes': len(data), 'lines': data.count(b'\n'), 'first': want[:120]})
        import shutil
        shutil.rmtree(d, ignore_errors=True)
    core.pmap(one, range(ctx.n(160, 3000)))
