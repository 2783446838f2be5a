"""Parallel line and token reducer for programs that still misbehave (development aid)."""
import re, subprocess, os, tempfile, threading
from concurrent.futures import ThreadPoolExecutor
EX = ThreadPoolExecutor(8)


def first(cands, test):
    """index of the first candidate that passes (evaluated in parallel batches)"""
    for i in range(0, len(cands), 8):
        b = cands[i:i + 8]
        for k, ok in enumerate(EX.map(lambda c: test(c()), b)):
            if ok: return i + k
    return None


def ddmin(parts, test, n=2):
    start = 0
    while len(parts) >= 1:
        size = max(1, len(parts) // n)
        offs = list(range(0, len(parts), size))
        offs = offs[start % len(offs):] + offs[:start % len(offs)]
        k = first([lambda i=i: parts[:i] + parts[i + size:] for i in offs], test)
        if k is not None:
            i = offs[k]
            parts = parts[:i] + parts[i + size:]
            start = i // size
            n = max(n - 1, 2)
        else:
            start = 0
            if size == 1: break
            n = min(len(parts), n * 2)
    return parts


def groups(s):
    out, st = [], []
    for i, c in enumerate(s):
        if c in '({[': st.append(i)
        elif c in ')}]' and st:
            out.append((st.pop(), i))
    return sorted(out)


def reduce(src, bad, save=lambda s: None):
    lines = ddmin(src.split('\n'), lambda l: bad('\n'.join(l)))
    s = '\n'.join(lines)
    save(s)
    while True:
        old = s
        pos = 0
        while True:
            g = [x for x in groups(s) if x[0] >= pos]
            if not g: break
            cands, meta = [], []
            for i, j in g[:24]:
                for rep in ('1', '', None):
                    t = s[:i] + (rep if rep is not None else s[i + 1:j]) + s[j + 1:]
                    cands.append(lambda t=t: t)
                    meta.append((t, i))
            k = first(cands, bad)
            if k is None: pos = g[min(23, len(g) - 1)][0] + 1
            else:
                s, pos = meta[k]
                save(s)
        toks = re.findall(r'\s+|\w+|.', s, re.S)
        if len(toks) < 2500:
            s = ''.join(ddmin(toks, lambda t: bad(''.join(t)), max(2, len(toks) // 8)))
            save(s)
        if s == old: return s


def compile_diff(cjit='/repo/cjit', san=True, tmp='/tmp/g', extra=None):
    base = tempfile.mkdtemp(dir=tmp)
    cache = {}

    def bad(s):
        if s in cache: return cache[s]
        cache[s] = r = bad_(s)
        return r

    def bad_(s):
        d = '%s/%d' % (base, threading.get_ident())
        os.makedirs(d, exist_ok=True)
        f = d + '/r.c'
        open(f, 'w').write(s)
        def run(c, t=10):
            try: return subprocess.run(c, capture_output=True, timeout=t)
            except subprocess.TimeoutExpired: return None
        b = run([cjit, f], 3)
        if not b or b'error' in b.stderr: return False
        r = run(['gcc', '-Werror=implicit-function-declaration', '-Werror=return-type', '-Werror=implicit-int', '-Werror=uninitialized', '-O0', '-o', d + '/r', f])
        if not r or r.returncode: return False
        a = run([d + '/r'])
        if not a or a.returncode < 0: return False
        if (a.stdout, a.returncode) == (b.stdout, b.returncode): return False
        r = run(['clang', '-w', '-O1', '-o', d + '/r2', f])
        if not r or r.returncode: return False
        c = run([d + '/r2'])
        if not c or (a.stdout, a.returncode) != (c.stdout, c.returncode): return False
        if san:
            r = run(['gcc', '-w', '-fsanitize=undefined,address', '-fno-sanitize=alignment', '-o', d + '/r3', f])
            c = run([d + '/r3'])
            if not c or c.stderr: return False
            r = run(['gcc', '-O1', '-Wall', '-Wextra', '-S', '-o', '/dev/null', f])
            if b'uninitialized' in r.stderr or b'sequence' in r.stderr or b'return-type' in r.stderr: return False
        return True
    return bad


if __name__ == '__main__':
    import sys
    b = compile_diff()
    s = open(sys.argv[1]).read()
    print('bad', b(s))
    s = reduce(s, b, lambda t: open(sys.argv[1] + '.red', 'w').write(t))
    print(s)
