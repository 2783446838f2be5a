"""C22 assembled files against the system assembler's, and inline assembly against another compiler's runs."""
import os, re, shutil
from .. import core, build, asmcmp
from ..gen import asmgen
from ..gen.iasmgen import IAsm

CORPUS = os.path.join(core.VERIF, 'corpus', 'c22')
RULE = ('Instruction cases: files of 250 labelled instructions drawn from every shape (mnemonic and operand kinds) of the supported set with random registers, addressing forms, segments, constants, expressions, '
        'external, local and numeric labels, assembled by tcc (file, .S, or inline in C) and by the system assembler; under every label both must disassemble to the same operation with the same operands, '
        'symbols and kind of relocation. Data cases: files of random data, alignment, symbol, section and repetition directives; sections, resolved relocations and symbols must agree. Inline cases: C programs whose '
        'asm statements use operands of every constraint, modifier, width, clobber and jump label, run in memory and as executables and compared with the same program by gcc. Non-trivial: at least 100 instructions, '
        'ten bytes of data, or four printed values compared.')
ASSUMPTIONS = ['encodings may differ in length and form as long as the disassembly agrees', 'instructions or forms tcc does not know are not covered (a fixed list of shapes accepted by both)', 'fill bytes of alignment in code are judged by running through them']


def check(ctx):
    b = build.build(ctx, 'plain')
    b.warm()
    env = dict(b.env(), LC_ALL='C')
    T, cj = b.tcc, [b.cjit]
    shapes = asmgen.shapes(os.path.join(CORPUS, 'shapes.txt'))
    rng = ctx.rand('order')
    reps = ctx.n(5, 160)
    order = []
    for _ in range(reps):
        l = shapes[:]
        rng.shuffle(l)
        order += l
    B = 250
    batches = [order[i:i + B] for i in range(0, len(order), B)]

    def insns(j):
        sh = batches[j]
        r = ctx.rand('insn', j)
        d = ctx.sub('i%d' % j)
        n = len(sh)
        ins = [re.sub(r'\bI(\d+)\b', lambda m: 'I%d' % max(0, min(n, int(m.group(1)))), asmgen.insn(r, s, i)) for i, s in enumerate(sh)]
        way = r.choice(['.s', '.s', '.S', 'inline'])
        idx = set(range(n))
        g = t = None
        pad = 'nop\n' * 8
        for _ in range(30):
            s = ['back: nop', 'dat: ' + pad.replace('\n', ';')]
            at = {}
            for i in range(n):
                at[len(s) + 1] = i
                s.append('I%d: %s' % (i, ins[i] if i in idx else 'nop'))
                s.append('1:')
            s += ['I%d: nop' % n, '1: ' + pad.replace('\n', ';'), 'fwd: nop']
            with open(os.path.join(d, 'g.s'), 'w') as f:
                f.write('\n'.join(s) + '\n')
            src = 't.c' if way == 'inline' else 't' + way
            with open(os.path.join(d, src), 'w') as f:
                if way == 'inline':
                    f.write('asm(\n' + '\n'.join('"%s\\n"' % x.replace('\\', '\\\\').replace('"', '\\"') for x in s) + '\n);\n')
                elif way == '.S':
                    f.write('\n'.join(x if i % 7 else re.sub(r'(?<=[$( ,])16\b', 'SIXTEEN', x) for i, x in enumerate(['#define SIXTEEN 16'] + s)[1:]) if 0 else '\n'.join(s) + '\n#ifdef NOT\n.byte 1\n#endif\n')
                else:
                    f.write('\n'.join(s) + '\n')
            g = core.run(['as', '--64', '-o', 'g.o', 'g.s'], cwd=d, timeout=60)
            bad = {int(m.group(1)) for m in re.finditer(r':(\d+): Error', g.etext)}
            if bad:
                ctx.obs('not_for_the_system_assembler', len(bad))
                idx -= {at[x] for x in bad if x in at}
                continue
            t = core.run(T + ['-c', '-o', 't.o', src], cwd=d, env=env, timeout=60)
            if t.rc:
                m = re.search(r':(\d+): error: (.*)', t.etext)
                x = int(m.group(1)) - (1 if way == 'inline' else 0) if m else None
                i = at.get(x)
                if way == 'inline' and i is None:
                    way = '.s'
                    continue
                ctx.violation('insn-%d-%s' % (j, i), '%s: %s is refused: %s' % (way, ins[i] if i is not None else '?', t.etext.strip()[-200:]), {'t' + way if way != 'inline' else 't.c': '\n'.join(s)})
                if i is None:
                    break
                idx.discard(i)
                continue
            break
        if g and t and not g.rc and not t.rc:
            labels = ['I%d' % i for i in range(n + 1)]
            ids = {l: 0x100000 + i * 0x40 for i, l in enumerate(labels)}
            ids.update(ext0=0x10000000, ext1=0x20000000, ext2=0x30000000, back=0x2000000, dat=0x3000000, fwd=0x4000000)
            A = asmcmp.canon(os.path.join(d, 'g.o'), labels, ids)
            C = asmcmp.canon(os.path.join(d, 't.o'), labels, ids)
            for i in sorted(idx):
                ctx.obs('instructions_compared')
                if A.get('I%d' % i) != C.get('I%d' % i):
                    ctx.violation('insn-%d-%d' % (j, i), '%s: %s\n is %s for the system assembler and %s here' % (way, ins[i], A.get('I%d' % i), C.get('I%d' % i)), {'t.s': ins[i] + '\n'})
        ctx.case('insn-%d' % j, nontrivial=len(idx) >= 100)
        ctx.distinct('ways', 'instructions ' + way)
        shutil.rmtree(d, ignore_errors=True)

    def data(j):
        text = asmgen.Data(ctx.rand('data', j)).text()
        d = ctx.sub('d%d' % j)
        with open(os.path.join(d, 'd.s'), 'w') as f:
            f.write(text)
        g = core.run(['as', '--64', '-o', 'g.o', 'd.s'], cwd=d, timeout=60)
        if g.rc:
            ctx.inconclusive('the system assembler refuses a data file')
        else:
            t = core.run(T + ['-c', '-o', 't.o', 'd.s'], cwd=d, env=env, timeout=60)
            msg = None
            if t.rc:
                msg = 'refused: ' + t.etext.strip()[-200:]
            else:
                A, C = asmcmp.content(os.path.join(d, 'g.o')), asmcmp.content(os.path.join(d, 't.o'))
                for k in sorted(set(A) | set(C)):
                    ctx.obs('parts_compared')
                    x, y = A.get(k), C.get(k)
                    if x != y:
                        if k.startswith('section') and x and y and len(x[3]) == len(y[3]) and x[3] != y[3]:
                            o = [i for i in range(len(x[3])) if x[3][i] != y[3][i]][0]
                            x, y = ('byte %d' % o, x[3][o:o + 8].hex()), ('byte %d' % o, y[3][o:o + 8].hex())
                        msg = '%s: the system assembler has %s, tcc %s' % (k, str(x)[:200], str(y)[:200])
                        break
                ctx.obs('data_bytes_compared', sum(len(v[3]) for k, v in A.items() if k.startswith('section')))
            if msg:
                ctx.violation('data-%d' % j, msg, {'d.s': text})
            ctx.case('data-%d' % j, nontrivial=len(text) > 100)
            for m in re.finditer(r'^\s*(\.[a-z0-9]+)', text, re.M):
                ctx.distinct('directives', m.group(1))
        shutil.rmtree(d, ignore_errors=True)

    def inline(j):
        r = ctx.rand('inline', j)
        text = IAsm(r).program()
        d = ctx.sub('n%d' % j)
        with open(os.path.join(d, 'p.c'), 'w') as f:
            f.write(text)
        g = core.run(['gcc', '-w', '-O%d' % r.choice([0, 1, 2]), '-fno-strict-aliasing', '-o', 'pg', 'p.c'], cwd=d, timeout=60)
        if g.rc:
            ctx.inconclusive('gcc refuses an inline program')
        else:
            want = core.run(['./pg'], cwd=d, timeout=20)
            way = r.choice(['run', 'run', 'exe', 'cjit', 'object', '-b', '-g'])
            msg = None
            if way in ('run', '-b', '-g'):
                got = core.run(T + ([way] if way != 'run' else []) + ['-w', '-run', 'p.c'], cwd=d, env=env, timeout=30)
            elif way == 'cjit':
                got = core.run(cj + ['-q', 'p.c'], cwd=d, env=env, timeout=30)
            else:
                c = [T + ['-w', '-o', 'pt', 'p.c']] if way == 'exe' else [T + ['-w', '-c', '-o', 'p.o', 'p.c'], T + ['-o', 'pt', 'p.o']]
                for x in c:
                    got = core.run(x, cwd=d, env=env, timeout=30)
                if not got.rc:
                    got = core.run(['./pt'], cwd=d, env=env, timeout=20)
            if (got.rc, got.out) != (want.rc, want.out):
                a, c = want.out.decode('latin1').split('\n'), got.out.decode('latin1').split('\n')
                x = [(p, q) for p, q in zip(a, c) if p != q] or [(a[-2:], c[-2:])]
                msg = '%s: gcc gives %s, tcc %s (exit %s) %s' % (way, x[0][0], x[0][1], got.rc, got.etext.strip()[-200:])
                # the values a statement works on may themselves be unspecified: gcc must agree with itself
                o = core.run(['gcc', '-w', '-O0', '-fno-strict-aliasing', '-o', 'pg0', 'p.c'], cwd=d, timeout=60)
                if not o.rc and core.run(['./pg0'], cwd=d, timeout=20).out != want.out:
                    ctx.inconclusive('gcc differs with itself')
                else:
                    ctx.violation('inline-%d' % j, msg, {'p.c': text})
            n = want.out.count(b'\n')
            ctx.obs('inline_values_compared', n)
            ctx.obs('asm_statements', text.count('asm'))
            ctx.case('inline-%d' % j, nontrivial=n >= 4)
            ctx.distinct('ways', 'inline ' + way)
        shutil.rmtree(d, ignore_errors=True)

    jobs = [(insns, j) for j in range(len(batches))] + [(data, j) for j in range(ctx.n(800, 30000))] + [(inline, j) for j in range(ctx.n(900, 25000))]
    ctx.rand('jobs').shuffle(jobs)
    only = os.environ.get('VF_ONLY')
    if only:
        jobs = [({'insn': insns, 'data': data, 'inline': inline}[only.split('-')[0]], int(only.split('-')[1]))]
    core.pmap(lambda x: x[0](x[1]), jobs)
