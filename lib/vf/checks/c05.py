"""C05: preprocessing follows the C standard."""
import os, re
from .. import core, build
from ..core import run, run_wd, pmap
from ..diffc import first_diff
from ..gen import ppgen as P

RULE = ('Cases are (a) macro invocations over random definition sets, expanded with -E and, stringised, inside a program run by cjit, compared as preprocessing-token '
        'sequences with gcc -E where clang agrees; the same text with line splices and comments inserted at random places must expand alike; (b) programs of nested '
        'conditional groups whose live groups a Python model of intmax_t/uintmax_t #if arithmetic predicts (gcc must agree with the model); (c) include trees (quote/angle, '
        'relative to the includer, -I/-isystem order, include_next, once, guards, computed includes) and (d) line-control/push_macro/__COUNTER__ programs, compared on what the '
        'program prints with the gcc build; (e) definitions given with -D, -C and CFLAGS in every spelling, observed from every source file of the run. '
        'Non-trivial: the expansion differs from the invocation text / more than one observation.')
ASSUMPTIONS = ['gcc and clang agreeing on an expansion is what the standard prescribes']


def parse(s):
    out = {}
    for k, t in re.findall(r'@ *(\d+)\s(.*?)\n?@ ?;', s, re.S):
        out[int(k)] = P.lex(t)
    return out


def mk(lines, inv):
    return '\n'.join(lines) + '\n' + '\n'.join('@%d %s\n@;' % (k, t) for k, t in enumerate(inv)) + '\n'


def splice(rng, src):
    """line splices at arbitrary places (translation phase 2), outside of which nothing changes"""
    out = []
    for c in src:
        if rng.random() < .04 and c != '\n':
            out.append('\\\n')
        out.append(c)
    return ''.join(out)


def prune(ctx, d, lines, inv):
    """leave out invocations gcc rejects"""
    f = os.path.join(d, 'p.c')
    for _ in range(6):
        src = mk(lines, inv)
        open(f, 'w').write(src)
        r = run(['gcc', '-E', '-P', 'p.c'], cwd=d)
        if r.rc == 0:
            return inv, src, r.text
        base = src.count('\n', 0, src.index('@0 '))
        bad = set()
        for m in re.finditer(r'^p\.c:(\d+):\d+: error|p\.c:(\d+):\d+: note: in expansion', r.etext, re.M):
            l = int(m.group(1) or m.group(2)) - 1 - base
            if l >= 0:
                bad.add(l // 2)
        if not bad:
            return None
        inv = [t for k, t in enumerate(inv) if k not in bad]
        if not inv:
            return None
    return None


def macro_case(ctx, b, k):
    rng = ctx.rand('mac', k)
    d = ctx.sub('mac%d' % k)
    if k % 4 == 3:
        lines, inv = rng.choice([P.comma_family, P.paste_family, P.paste_family])(rng)
    else:
        ms, lines = P.macros(rng)
        inv = P.invocations(rng, ms)
    p = prune(ctx, d, lines, inv)
    if p is None:
        ctx.obs('macro_family_unusable')
        return 0
    inv, src, gtext = p
    g = parse(gtext)
    c = parse(run(['clang', '-E', '-P', '-w', 'p.c'], cwd=d).text)
    r = run_wd(b.tcc + ['-E', '-P', 'p.c'], cwd=d, env=b.env())
    variants = [('', r, g)]
    if k % 3 == 0:
        sp = splice(rng, src)
        open(os.path.join(d, 'p.c'), 'w').write(sp)
        gs = parse(run(['gcc', '-E', '-P', '-w', 'p.c'], cwd=d).text)
        variants.append(('spliced ', run_wd(b.tcc + ['-E', '-P', 'p.c'], cwd=d, env=b.env()), gs if gs == g else {}))
    if k % 3 == 1:
        r2 = run_wd(b.tcc + ['-E', 'p.c'], cwd=d, env=b.env())
        r2.out = re.sub(rb'(?m)^# \d+ .*$', b'', r2.out)
        variants.append(('with line markers ', r2, g))
    for what, r, ref in variants:
        t = parse(r.text)
        for i in sorted(g):
            if g[i] != c.get(i) or (ref.get(i) != g[i]):
                ctx.obs('reference_disputed')
                continue
            ctx.case('%d.%d%s' % (k, i, what), nontrivial=P.lex(inv[i]) != g[i])
            ctx.obs('expansions_compared')
            ctx.distinct('expansion', ' '.join(g[i]))
            if t.get(i) != g[i]:
                ctx.violation('macro-%s%d.%d' % (what.replace(' ', ''), k, i), '%s%s expands to\n  %s\nwith cjit instead of\n  %s\n%s' % (
                    what, inv[i], ' '.join(t.get(i, ['(nothing: %s)' % r.etext[:200]])), ' '.join(g[i]), ''),
                    {'p.c': src, 'got.txt': r.out, 'stderr.txt': r.err})
                break
    # inside a running program: stringised
    good = [i for i in sorted(g) if g[i] == c.get(i)]
    body = '\n'.join(lines) + '\n#define S_(...) #__VA_ARGS__\n#define X_(...) S_(__VA_ARGS__)\nextern int puts(const char *);\nint main(void) {\n'
    body += ''.join('puts(X_(@%d %s));\n' % (i, inv[i]) for i in good if balanced(inv[i])) + 'return 0; }\n'
    f = os.path.join(d, 'r.c')
    open(f, 'w').write(body)
    rg = run(['gcc', '-w', 'r.c', '-o', 'r'], cwd=d)
    if rg.rc == 0 and 'main' not in P.lex('\n'.join(lines)):
        rg = run(['./r'], cwd=d)
        rc = run_wd([b.cjit, '-q', 'r.c'], cwd=d, env=b.env())
        a, e = [[P.lex(l) for l in x.text.split('\n')] for x in (rg, rc)]
        ctx.obs('stringised_compared', len(a))
        if a != e:
            bad = [(x, y) for x, y in zip(a, e) if x != y] + [(['(end)'], ['(end)', rc.etext[:200]])]
            ctx.violation('stringised-%d' % k, 'a program printing stringised expansions prints\n  %s\ninstead of\n  %s' % (' '.join(bad[0][1]), ' '.join(bad[0][0])),
                          {'r.c': body, 'got.txt': rc.out, 'expected.txt': rg.out, 'stderr.txt': rc.err})
    else:
        ctx.obs('stringised_unusable')
    return len(g)


def balanced(t):
    n = 0
    for x in P.lex(t):
        n += (x == '(') - (x == ')')
        if n < 0:
            return False
    return n == 0


def cond_case(ctx, b, k):
    d = ctx.sub('cond%d' % k)
    text, ids = P.cond_program(ctx.rand('cond', k))
    src = 'extern int puts(const char *);\nconst char *t = ""\n' + text + ';int main(void) { puts(t); return 0; }\n'
    open(d + '/k.c', 'w').write(src)
    want = ''.join('%d ' % x for x in ids) + '\n'
    r = run(['gcc', '-w', 'k.c', '-o', 'k'], cwd=d)
    if r.rc or run(['./k'], cwd=d).text != want:
        ctx.obs('model_disputed')
        return
    r = run_wd([b.cjit, '-q', 'k.c'], cwd=d, env=b.env())
    ctx.case('cond%d' % k, nontrivial=len(ids) > 1)
    ctx.obs('if_groups', text.count('#if') + text.count('#elif'))
    ctx.obs('live_markers', len(ids))
    if r.text != want or r.rc:
        a, e = want.split(), r.text.split()
        first = next((x for x, y in zip(a, e + ['']) if x != y), '?')
        ctx.violation('cond-%d' % k, 'conditional groups: first difference at marker %s; %s' % (first, r.etext[:200]),
                      {'k.c': src, 'expected.txt': want, 'got.txt': r.out, 'stderr.txt': r.err})


def inc_case(ctx, b, k):
    d = ctx.sub('inc%d' % k)
    files, opts = P.include_tree(ctx.rand('inc', k))
    for p, x in files.items():
        os.makedirs(os.path.dirname(os.path.join(d, p)) or d, exist_ok=True)
        open(os.path.join(d, p), 'w').write(x)
    for q in ('d0', 'd1', 'd2', 'sys0', 'sys1'):
        os.makedirs(os.path.join(d, q), exist_ok=True)
    go, co = [], []
    for i, (kind, q) in enumerate(opts):
        go += ['-' + kind, q]
        if kind == 'I':
            co += [['-I', q], ['-I' + q], ['-C', '-I' + q]][(k + i) % 3]
        else:
            co += ['-C', '-isystem ' + q]
    if run(['gcc', '-w'] + go + ['main.c', '-o', 'k'], cwd=d).rc:
        ctx.obs('include_tree_unusable')
        return
    r = run(['./k'], cwd=d)
    c = run_wd([b.cjit, '-q'] + co + ['main.c'], cwd=d, env=b.env())
    ctx.case('inc%d' % k, nontrivial=r.text.count('\n') > 2)
    ctx.obs('includes_observed', r.text.count('\n'))
    if (r.out, r.rc) != (c.out, c.rc):
        fs = {'files/' + p: x for p, x in files.items()}
        fs.update({'expected.txt': r.out, 'got.txt': c.out, 'stderr.txt': c.err, 'cmd.txt': 'cjit %s main.c\n' % ' '.join(co)})
        ctx.violation('include-%d' % k, 'include tree (%s): %s' % (' '.join(go), first_diff(r, c)), fs)


def line_case(ctx, b, k):
    d = ctx.sub('line%d' % k)
    src = P.line_program(ctx.rand('line', k))
    open(d + '/k.c', 'w').write(src)
    if run(['gcc', '-w', 'k.c', '-o', 'k'], cwd=d).rc:
        ctx.obs('line_program_unusable')
        return
    r = run(['./k'], cwd=d)
    c = run_wd([b.cjit, '-q', 'k.c'], cwd=d, env=b.env())
    ctx.case('line%d' % k)
    ctx.obs('line_observations', r.text.count('\n'))
    if (r.out, r.rc) != (c.out, c.rc):
        ctx.violation('line-%d' % k, 'line information: ' + first_diff(r, c), {'k.c': src, 'expected.txt': r.out, 'got.txt': c.out, 'stderr.txt': c.err})
    # through the -E output: # line markers carry the same information
    if k % 3 == 0:
        e = run_wd(b.tcc + ['-E', 'k.c'], cwd=d, env=b.env())
        open(d + '/e.c', 'wb').write(e.out)
        ref = run(['gcc', '-w', '-x', 'cpp-output', 'e.c', '-o', 'e'], cwd=d)
        got = run(['./e'], cwd=d) if ref.rc == 0 else ref
        ctx.obs('preprocessed_recompiled')
        if got.out != r.out:
            ctx.violation('line-E-%d' % k, 'the -E output compiled by gcc: ' + first_diff(r, got), {'k.c': src, 'e.c': e.out, 'expected.txt': r.out, 'got.txt': got.out, 'stderr.txt': got.err})


def define_case(ctx, b, k):
    """definitions from the command line and the environment are seen by every file"""
    rng = ctx.rand('def', k)
    d = ctx.sub('def%d' % k)
    opts, env, want, late = [], [], {}, []
    cargs = []
    nf = rng.randrange(1, 4)
    for i in range(rng.randrange(1, 7)):
        n = 'D%d' % rng.randrange(5) if rng.random() < .4 else '%s%d' % (rng.choice(['A', 'long_Name_', '_x', 'Z9_']), i)
        v = rng.choice([None, str(rng.randrange(1000)), '0x7fUL', 'abc', '0', '_u'])
        how = rng.randrange(6)
        word = '-D' + n + ('' if v is None else '=' + v)
        if n in want:
            continue
        if how == 0:
            opts.append(['-D', word[2:]])
        elif how == 1:
            opts.append([word])
        elif how == 2:
            opts.append(['-C', word])
        elif how == 3:
            opts.append(['-C' + word])
        elif how == 4 and v is not None:
            if rng.random() < .5:
                v = rng.choice(['(1+2)', '"s"', "'q'", '-5', '1.5', 'x+y'])
            q = v.replace('"', '\\"') if rng.random() < 0 else v
            if '"' in v:
                v = '7'
            opts.append(['-C', '-D%s=%s' % (n, v)])
        else:
            env.append(word)
        want[n] = '1' if v is None else v
    und = [n for n in ('U1', 'U2')]
    body = 'extern int printf(const char *, ...);\n#define S_(x) #x\n#define S(x) S_(x)\n'
    shows = ''
    for n in sorted(want) + und:
        shows += '#ifdef %s\nprintf("%%s %s=[%%s]\\n", __FILE__, S(%s));\n#else\nprintf("%%s %s undefined\\n", __FILE__);\n#endif\n' % (n, n, n, n)
    names = []
    for i in range(nf):
        # a redefinition in one file must not reach the next
        red = ''
        if want and rng.random() < .5:
            n = rng.choice(sorted(want))
            red = '#undef %s\n#define U1 local\n' % n
        t = body + 'void %s(void);\n' % ('f%d' % (i + 1)) + 'void f%d(void) {\n%s%s}\n%s' % (i, shows, 'f%d();\n' % (i + 1) if i + 1 < nf else '', red)
        if i == 0:
            t += 'int main(void) { f0(); return 0; }\n'
        n = 'm%d.c' % i
        open(os.path.join(d, n), 'w').write(t)
        names.append(n)
    exp = ''
    for i in range(nf):
        for n in sorted(want) + und:
            exp += 'm%d.c %s=[%s]\n' % (i, n, want[n]) if n in want else 'm%d.c %s undefined\n' % (i, n)
    words = [[n] for n in names] + opts
    rng.shuffle(words)
    e = b.env()
    if env:
        e['CFLAGS'] = ' '.join(env)
    cmd = [b.cjit, '-q'] + [w for x in words for w in x]
    r = run_wd(cmd, cwd=d, env=e)
    # the files' order follows the command line; __FILE__ is that of each definition
    ctx.case('def%d' % k, nontrivial=len(want) > 0)
    ctx.obs('definitions', len(want) * nf)
    if r.text != exp or r.rc:
        a, g = exp.split('\n'), r.text.split('\n')
        df = next(((x, y) for x, y in zip(a, g + ['']) if x != y), ('', ''))
        fs = {n: open(os.path.join(d, n)).read() for n in names}
        fs.update({'expected.txt': exp, 'got.txt': r.out, 'stderr.txt': r.err, 'cmd.txt': 'CFLAGS="%s" cjit %s\n' % (' '.join(env), ' '.join(cmd[1:]))})
        ctx.violation('define-%d' % k, 'CFLAGS="%s" cjit %s: prints "%s" instead of "%s" %s' % (' '.join(env), ' '.join(cmd[1:]), df[1], df[0], r.etext[:200]), fs)


PREDEF = '''__STDC__ __STDC_HOSTED__ __x86_64__ __linux__ __unix__ __LP64__ __CHAR_BIT__ __SIZEOF_INT__ __SIZEOF_LONG__ __SIZEOF_POINTER__
__INT_MAX__ __LONG_MAX__ __SIZE_TYPE__ __PTRDIFF_TYPE__ __WCHAR_TYPE__ __INT64_TYPE__ __INTPTR_TYPE__ __ELF__ __linux __unix __x86_64 __SIZEOF_LONG_LONG__ __SIZEOF_SHORT__ __SIZEOF_SIZE_T__ __LONG_LONG_MAX__ __SCHAR_MAX__ __SHRT_MAX__'''.split()


def predefined(ctx, b):
    """predefined macros that both define must expand to the same"""
    d = ctx.sub('predef')
    body = 'extern int printf(const char *, ...);\n#define S_(...) #__VA_ARGS__\n#define S(...) S_(__VA_ARGS__)\nint main(void) {\n'
    for n in PREDEF:
        body += '#ifdef %s\nprintf("%s=[%%s]\\n", S(%s));\n#endif\n' % (n, n, n)
    body += 'printf("%d %d\\n", (int)sizeof(__DATE__), (int)sizeof(__TIME__));printf("%s %s\\n", __func__, __FILE__); return 0; }\n'
    open(d + '/k.c', 'w').write(body)
    run(['gcc', '-w', 'k.c', '-o', 'k'], cwd=d)
    a = set(run(['./k'], cwd=d).text.split('\n'))
    g = set(run_wd([b.cjit, '-q', 'k.c'], cwd=d, env=b.env()).text.split('\n'))
    gn = {x.split('=')[0]: x for x in a}
    bad = [x for x in g if x.split('=')[0] in gn and '=[' in x and norm(gn[x.split('=')[0]]) != norm(x)] + [x for x in a if '=[' not in x and x not in g]
    ctx.case('predefined')
    ctx.obs('predefined_compared', len(g))
    if bad or len(g) < 8:
        ctx.violation('predefined', 'predefined macros differ: %s' % bad[:3], {'k.c': body})


def norm(x):
    x = re.sub(r'\b(long) (unsigned) int|\b(unsigned) (long)( int)?', 'unsigned long', x)
    x = re.sub(r'\blong( long)? int\b', 'long', x).replace('long long', 'long')
    return re.sub(r'\b(0x[0-9a-fA-F]+|\d+)[uUlL]*\b', lambda m: str(int(m.group(1), 0)), x)


def corpus(ctx, b):
    cd = os.path.join(core.VERIF, 'corpus', 'c05')
    for f in sorted(os.listdir(cd)):
        d = ctx.sub('corp')
        p = os.path.join(cd, f)
        core.shutil.copyfile(p, os.path.join(d, f))
        exe = os.path.join(d, f + '.exe')
        if run(['gcc', '-w', p, '-o', exe]).rc:
            raise core.HarnessError('corpus ' + f)
        r = run([exe])
        c = run_wd([b.cjit, '-q', f], cwd=d, env=b.env())
        ctx.case('corpus-' + f[:-2])
        if (r.out, r.rc) != (c.out, c.rc):
            ctx.violation('corpus-' + f[:-2], first_diff(r, c), {f: open(p).read(), 'got.txt': c.out, 'expected.txt': r.out})


def check(ctx):
    b = build.build(ctx, 'plain')
    b.warm()
    predefined(ctx, b)
    corpus(ctx, b)
    jobs = [(macro_case, k) for k in range(ctx.n(150, 6000))]
    jobs += [(cond_case, k) for k in range(ctx.n(200, 8000))]
    jobs += [(inc_case, k) for k in range(ctx.n(100, 3000))]
    jobs += [(line_case, k) for k in range(ctx.n(100, 3000))]
    jobs += [(define_case, k) for k in range(ctx.n(150, 4000))]
    ctx.rand('order').shuffle(jobs)

    def one(j):
        f, k = j
        f(ctx, b, k)
        d = os.path.join(ctx.dir, {macro_case: 'mac', cond_case: 'cond', inc_case: 'inc', line_case: 'line', define_case: 'def'}[f] + str(k))
        core.shutil.rmtree(d, ignore_errors=True)
    pmap(one, jobs)
    un = sum(ctx.counts.get(x, 0) for x in ('macro_family_unusable', 'model_disputed', 'include_tree_unusable', 'line_program_unusable'))
    if un > len(jobs) // 8:
        raise core.HarnessError('too many cases without a usable reference: %d of %d' % (un, len(jobs)))
