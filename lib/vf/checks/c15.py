"""C15 ar mode: create, list, extract; oracle GNU ar/nm/ld and an own parser; ASan/UBSan."""
import os, re, struct, shutil, subprocess, resource
from .. import core, build

RULE = ('A case is one archive operation of cjit -ar (or cjit-ar main): creation from generated object files (symbol kinds, counts around '
        'the growth steps of the index, odd and even sizes, stripped objects), listing, extraction of own and of GNU ar archives, a link of the archive by '
        'cjit and by the system linker, or a hostile input (corrupted, truncated, not an archive, not an object, failing output). '
        'Non-trivial: at least one member or a hostile input.')
ASSUMPTIONS = ['member names longer than 15 characters are cut by the creation as the format of cjit-ar states; names up to 15 are exact']


def parse_ar(b):
    """-> (index list [(sym, member offset)], [(offset, name, data)]) or raises"""
    assert b[:8] == b'!<arch>\n', 'magic'
    p, mem, idx, ln = 8, [], None, b''
    while p < len(b):
        h = b[p:p + 60]
        assert len(h) == 60 and h[58:] == b'`\n', 'header at %d' % p
        n = int(h[48:58])
        nm = h[:16].rstrip(b' ')
        d = b[p + 60:p + 60 + n]
        assert len(d) == n, 'member %r is cut' % nm
        if nm == b'/':
            assert idx is None and not mem, 'index position'
            c = struct.unpack('>I', d[:4])[0]
            offs = struct.unpack('>%dI' % c, d[4:4 + 4 * c])
            names = d[4 + 4 * c:].split(b'\0')[:c]
            assert len(names) == c, 'index names'
            idx = list(zip(names, offs))
        elif nm == b'//':
            ln = d
        else:
            if nm[:1] == b'/':
                nm = ln[int(nm[1:]):].split(b'\n')[0]
            mem.append((p, nm[:-1] if nm.endswith(b'/') else nm, d))
        p += 60 + n + (n & 1)
    return idx or [], mem


def elf_globals(b):
    """global/weak defined symbols of an ELF64 object, in order"""
    if len(b) < 64 or b[:4] != b'\x7fELF':
        return []
    shoff, = struct.unpack_from('<Q', b, 40)
    n, = struct.unpack_from('<H', b, 60)
    sh = [struct.unpack_from('<IIQQQQIIQQ', b, shoff + 64 * i) for i in range(n)]
    out = []
    for s in sh:
        if s[1] == 2:
            st = sh[s[6]]
            for o in range(s[4] + 24, s[4] + s[5], 24):
                nm, info, oth, shn, v, sz = struct.unpack_from('<IBBHQQ', b, o)
                if shn and info >> 4 in (1, 2):
                    e = b.index(b'\0', st[4] + nm)
                    out.append(b[st[4] + nm:e])
    return out


def gen_asm(rng, tag, nglob):
    """assembler text with nglob global/weak definitions of many kinds, plus locals and undefined ones"""
    o, names = [], []
    funcs = []
    for i in range(nglob):
        n = '%s_%s%d' % (tag, ''.join(rng.choice('abcxyzABC_$.') for _ in range(rng.choice([0, 1, 3, 12, 60]))), i)
        k = rng.choice('ffffdddwvctrh')
        if k == 'f':
            o += ['.text', '.globl "%s"' % n, '.type "%s",@function' % n, '"%s": movl $%d,%%eax' % (n, 1000 + i), 'ret']
            if re.fullmatch(r'\w+', n): funcs.append((n, 1000 + i))
        elif k == 'w':
            o += ['.text', '.weak "%s"' % n, '.type "%s",@function' % n, '"%s": movl $%d,%%eax' % (n, 1000 + i), 'ret']
            if re.fullmatch(r'\w+', n): funcs.append((n, 1000 + i))
        elif k == 'd':
            o += ['.data', '.globl "%s"' % n, '.type "%s",@object' % n, '"%s": .long 7' % n]
        elif k == 'v':
            o += ['.bss', '.weak "%s"' % n, '"%s": .skip 4' % n]
        elif k == 'c':
            o += ['.comm "%s",8,8' % n]
        elif k == 't':
            o += ['.section .tbss,"awT",@nobits', '.globl "%s"' % n, '.type "%s",@tls_object' % n, '"%s": .skip 4' % n]
        elif k == 'r':
            o += ['.section .rodata', '.globl "%s"' % n, '"%s": .byte %d' % (n, i & 255)]
        elif k == 'h':
            o += ['.data', '.globl "%s"' % n, '.hidden "%s"' % n, '"%s": .long 1' % n]
        names.append(n)
    for i in range(rng.randrange(0, 4)):
        o += ['.data', '%s_local%d: .long 3' % (tag, i)]
    for i in range(rng.randrange(0, 3)):
        o += ['.data', '.quad %s_undef%d' % (tag, i)]
    if rng.random() < .1:
        o += ['.globl "%s_abs"' % tag, '.set %s_abs, 0x1234' % tag]
        names.append(tag + '_abs')
    o += ['.section .note.GNU-stack,"",@progbits', '']
    return '\n'.join(o), names, funcs


def rd(p):
    with open(p, 'rb') as f:
        return f.read()


def check(ctx):
    B = build.build(ctx, 'asan')
    P = build.build(ctx, 'plain')
    P.warm(); B.warm()
    env = B.env()
    objs = []
    od = ctx.sub('objs')

    def mk(i):
        rng = ctx.rand('obj', i)
        ng = rng.choice([0, 0, 1, 1, 2, 3, 5, 10, 30, 100])
        if i < 14:
            ng = [248, 249, 250, 251, 252, 498, 499, 500, 501, 700, 0, 1, 2, 249][i]
        tag = 'o%d' % i
        nmlen = rng.choice([1, 3, 8, 12, 13])
        name = ('o%d' % i + 'qwertyuiopasdfg')[:max(nmlen, len(tag))]
        p = os.path.join(od, name + rng.choice(['.o', '.o', '.obj'[:max(2, 15 - len(name))]]))
        kind = rng.choice(['as', 'as', 'as', 'gcc', 'cjit', 'strip'])
        funcs = []
        if kind in ('as', 'strip') or i < 14:
            s, names, funcs = gen_asm(rng, tag, ng)
            r = core.run(['as', '-o', p, '-'], input=s.encode())
            if r.rc: raise core.HarnessError('as: ' + r.etext[:500])
            if kind == 'strip' and i >= 14:
                r = core.run(['objcopy', '--strip-all', p])
                funcs = []
        else:
            c = ''.join('int %s_f%d(void){return %d;}\n' % (tag, j, j) for j in range(min(ng, 30))) + \
                'const char %s_str[] = "%s";' % (tag, 'x' * rng.randrange(9)) + 'static int %s_s = 3; int %s_com; extern int %s_un; __attribute__((weak)) int %s_wk(void){return %s_s;}\n' % (tag, tag, tag, tag, tag)
            funcs = [('%s_f%d' % (tag, j), j) for j in range(min(ng, 30))]
            cf = os.path.join(od, tag + '.c')
            open(cf, 'w').write(c)
            r = core.run(['gcc', '-c', '-fno-common' if rng.random() < .5 else '-fcommon', '-o', p, cf] if kind == 'gcc' else [P.cjit, '-c', cf, '-o', p])
            if r.rc: raise core.HarnessError('%s: %s' % (kind, r.etext[:500]))
            os.unlink(cf)
        pad = rng.choice([0, 0, 1, 2, 3, 7])
        if pad:
            with open(p, 'ab') as f: f.write(bytes(rng.randrange(256) for _ in range(pad)))
        return p, rd(p), funcs
    objs = core.pmap(mk, range(ctx.n(60, 300)))
    for o in objs: ctx.distinct('object sizes', len(o[1])); ctx.distinct('symbol counts', len(elf_globals(o[1])))

    def bad(key, msg, files=None):
        ctx.violation(key, msg, files)

    def runar(args, cwd, **kw):
        cmd = [B.cjit, '-ar'] + args
        r = core.run_wd(cmd, cwd=cwd, env=kw.pop('env', env), timeout=60, **kw)
        ctx.obs('cjit -ar runs')
        rep = core.san_report(r.err)
        if rep or r.rc < 0:
            bad('sanitizer: ' + core.san_key(r.err) if rep else 'killed by signal %d' % -r.rc, ' '.join(args) + '\n' + r.brief(4000),
                {os.path.basename(a): rd(os.path.join(cwd, a)) for a in args if os.path.isfile(os.path.join(cwd, a))})
        return r

    def create(i):
        rng = ctx.rand('create', i)
        n = rng.choice([0, 1, 1, 2, 3, 5, 12, 30])
        if i < 14: pick = [objs[i]]
        elif i < 20: pick = [objs[j] for j in range(i - 14, 12)]
        else: pick = [rng.choice(objs) for _ in range(n)] if rng.random() < .2 else rng.sample(objs, min(n, len(objs)))
        d = ctx.sub('c%d' % i)
        lib = rng.choice(['lib.a', 'sub.d/libx.a', 'l.a', 'lib' + 'y' * rng.choice([10, 100, 200]) + '.a', os.path.join(d, 'abs.a')])
        os.makedirs(os.path.join(d, 'sub.d'), exist_ok=True)
        if rng.random() < .2:
            open(os.path.join(d, lib), 'wb').write(b'!<arch>\nold content' * rng.choice([1, 5000]))
        opt = rng.choice([['rcs'], ['rc'], ['-rcs'], ['cr'], ['rcsv'], ['r'], ['-r', '-c'], ['s'], []])
        files = [o[0] for o in pick]
        args = opt + [lib] + files
        if opt and rng.random() < .1 and files: args = args + ['-s']
        r = runar(args, d)
        ctx.case(('create', i), len(pick) > 0)
        what = 'cjit -ar ' + ' '.join(opt) + ' of %d objects: ' % len(pick)
        ap = os.path.join(d, lib)
        if r.rc != 0 or not os.path.exists(ap):
            return bad('create-fails', what + r.brief())
        if os.path.exists(ap + '.tmp'):
            bad('temporary-left', what + 'the temporary file remains')
        b = rd(ap)
        try:
            idx, mem = parse_ar(b)
        except Exception as e:
            return bad('malformed-archive', what + 'the archive does not parse: %r' % e, {'lib.a': b})
        ctx.obs('members created', len(mem)); ctx.obs('index entries', len(idx))
        want = [(os.path.basename(o[0]).encode(), o[1]) for o in pick]
        if [(m[1], m[2]) for m in mem] != want:
            return bad('members-differ', what + 'members %r\nwanted %r' % ([(m[1], len(m[2])) for m in mem], [(w[0], len(w[1])) for w in want]), {'lib.a': b})
        wi = [(s, mem[k][0]) for k, o in enumerate(pick) for s in elf_globals(o[1])]
        if sorted(wi) != sorted(idx):
            miss = [x for x in wi if x not in idx][:5]; extra = [x for x in idx if x not in wi][:5]
            return bad('index-differs', what + 'index of %d entries, %d wanted; missing %r, wrong %r' % (len(idx), len(wi), miss, extra), {'lib.a': b})
        g = core.run(['ar', 't', ap])
        if g.rc != 0 or g.text.split() != [os.path.basename(o[0]) for o in pick]:
            bad('gnu-list', what + 'ar t: ' + g.brief(), {'lib.a': b})
        if len(pick) > 0:
            ns = core.run(['nm', '-s', '--quiet', ap])
            m = re.search(r'Archive index:\n((?:.* in .*\n)*)', ns.text)
            got = m.group(1).splitlines() if m else []
            w = ['%s in %s' % (s.decode(), os.path.basename(o[0])) for o in pick for s in elf_globals(o[1])]
            if sorted(got) != sorted(w):
                bad('nm-index', what + 'nm -s lists %d, wanted %d' % (len(got), len(w)), {'lib.a': b})
        # list with cjit
        r = runar(['t', lib], d)
        if r.rc != 0 or r.text.split('\n')[:-1] != [os.path.basename(o[0]) for o in pick]:
            bad('list-own', what + 't: ' + r.brief(), {'lib.a': b})
        # extract by both
        for tool in (['ar', 'x'], None):
            x = ctx.sub('c%d/x%d' % (i, tool is None))
            last = {os.path.basename(o[0]): o[1] for o in pick}
            if tool:
                r = core.run(tool + [ap], cwd=x)
            else:
                r = runar([rng.choice(['x', 'xv', '-x']), ap], x)
            got = {f: rd(os.path.join(x, f)) for f in os.listdir(x)}
            if r.rc != 0 or got != last:
                bad('extract-%s' % ('gnu' if tool else 'own'), what + 'files %r\n%s' % (sorted((f, len(c)) for f, c in got.items()), r.brief()), {'lib.a': b})
        # link
        fs = []
        seen = set()
        for o in pick:
            if o[0] not in seen and o[2]:
                fs.append(rng.choice(o[2]))
            seen.add(o[0])
        if any(os.path.basename(o[0]) for o in pick) and fs and len(seen) == len(pick):
            fs = fs[:8]
            # objects with undefined references cannot be linked: only the quick ones
            undef = set()
            for k, v in fs:
                o = next(o for o in pick if (k, v) in o[2])
                u = core.run(['nm', '-u', o[0]]).text.split()
                undef |= {x for x in u if x != 'U'}
            src = '#include <stdio.h>\n' + ''.join('int %s(void);\n' % f for f, v in fs) + ''.join('int %s;\n' % u for u in sorted(undef) if re.fullmatch(r'\w+', u) and not u.startswith('_')) + \
                'int main(void){' + ''.join('printf("%%d\\n",%s());' % f for f, v in fs) + 'return 0;}\n'
            mf = os.path.join(d, 'main.c')
            open(mf, 'w').write(src)
            want = ''.join('%d\n' % v for f, v in fs)
            g = core.run(['gcc', '-w', '-no-pie', '-o', os.path.join(d, 'm'), mf, ap])
            if g.rc == 0: g = core.run([os.path.join(d, 'm')])
            if g.rc != 0 or g.text != want:
                bad('link-gnu', what + 'gcc with the archive: ' + g.brief(), {'lib.a': b, 'main.c': src})
            for cmd in ([P.cjit, mf, ap],):
                g2 = core.run_wd(cmd, env=P.env())
                ctx.obs('links by cjit')
                if g2.rc != 0 or g2.text != want:
                    bad('link-cjit', what + 'cjit main.c lib.a: ' + g2.brief(), {'lib.a': b, 'main.c': src})
            ctx.obs('links by ld')
        if i < 3: ctx.sample({'args': args[:4], 'members': len(mem), 'index': len(idx), 'bytes': len(b)})
        shutil.rmtree(d, ignore_errors=True)
    core.pmap(create, range(ctx.n(60, 600)))

    def gnu(i):
        rng = ctx.rand('gnu', i)
        d = ctx.sub('g%d' % i)
        n = rng.choice([0, 1, 2, 4, 9])
        files = {}
        for k in range(n):
            nm = 'm%d' % k + 'x' * rng.choice([0, 5, 10, 12, 13, 14, 30, 100]) + rng.choice(['.o', '.txt', ''])
            c = rng.choice(objs)[1] if rng.random() < .5 else bytes(rng.randrange(256) for _ in range(rng.choice([0, 1, 2, 3, 59, 60, 61, 1000, 1001])))
            files[nm] = c
            open(os.path.join(d, nm), 'wb').write(c)
        opt = rng.choice(['rc', 'rcs', 'rcS', 'rcD', 'rcU'])
        g = core.run(['ar', opt, 'lib.a'] + list(files), cwd=d)
        if g.rc: raise core.HarnessError(g.etext)
        b = rd(os.path.join(d, 'lib.a'))
        # a table of long names whose size is odd, as written by other tools
        o = b.find(b'//' + b' ' * 14)
        if o >= 0 and rng.random() < .7:
            z = int(b[o + 48:o + 58])
            if z and b[o + 60 + z - 2:o + 60 + z] == b'\n\n':
                b = b[:o + 48] + b'%-10d' % (z - 1) + b[o + 58:]
                open(os.path.join(d, 'lib.a'), 'wb').write(b)
                ctx.obs('odd name table')
        ctx.case(('gnu', i), n > 0)
        r = runar(['t', 'lib.a'], d)
        if r.rc or r.text.split('\n')[:-1] != list(files):
            bad('list-gnu', 'archive of ar %s with %r: %s' % (opt, [(f, len(c)) for f, c in files.items()], r.brief()), {'lib.a': b})
        x = ctx.sub('g%d/x' % i)
        r = runar(['x', '../lib.a'], x)
        got = {f: rd(os.path.join(x, f)) for f in os.listdir(x)}
        if r.rc or got != files:
            bad('extract-gnu-made', 'archive of ar %s with %r: %s' % (opt, [(f, len(c)) for f, c in files.items()], r.brief()), {'lib.a': b})
        # mutations
        for k in range(ctx.n(3, 10)):
            m = bytearray(b)
            op = rng.randrange(6)
            if op == 0: m = m[:rng.randrange(len(m) + 1)]
            elif op == 1 and len(m) > 8:
                for _ in range(rng.randrange(1, 4)): m[rng.randrange(len(m))] = rng.randrange(256)
            elif op == 2 and len(m) > 80:
                heads = [q.start() for q in re.finditer(b'`\n', bytes(m))]
                h = rng.choice(heads) - 58
                f = rng.choice([b'9999999999', b'-1        ', b'4294967295', b'2147483647', b'abc       ', b'0         ', b'2147483632', b'          '])
                m[h + 48:h + 58] = f
            elif op == 3 and len(m) > 80:
                heads = [q.start() for q in re.finditer(b'`\n', bytes(m))]
                h = rng.choice(heads) - 58
                m[h:h + 16] = rng.choice([b'/9999           ', b'//              ', b'/0              ', b'/               ', b'                ', b'/-5             ', b'aaaaaaaaaaaaaaaa', b'/99999999999999 ', b'/SYM64/         '])
            elif op == 4: m += bytes(rng.randrange(1, 70))
            else: m = bytearray(rng.choice([b'', b'!<arch>', b'!<thin>\n', b'!<arch>\n' + b'x' * 59, b'\x7fELF' + b'\0' * 200, bytes(m[1:])]))
            m = bytes(m)
            open(os.path.join(d, 'bad.a'), 'wb').write(m)
            cut = False
            try:
                parse_ar(m)
                valid = True
            except Exception:
                valid = False
            y = ctx.sub('g%d/y%d' % (i, k))
            for a in (['t', '../bad.a'], ['x', '../bad.a']):
                r = runar(a, y)
                ctx.case(('mut', i, k, a[0]))
                if m[:8] != b'!<arch>\n' and r.rc == 0:
                    bad('not-archive-accepted', r.brief(), {'bad.a': m})
                # cut in the middle of a member or header: an error
                if op == 0 and not valid and r.rc == 0 and len(m) >= 8:
                    bad('truncated-accepted', 'length %d of %d: %s' % (len(m), len(b), r.brief()), {'bad.a': m})
                ctx.obs('refused' if r.rc else 'accepted mutated')
        shutil.rmtree(d, ignore_errors=True)
    core.pmap(gnu, range(ctx.n(40, 400)))

    def refuse(i):
        rng = ctx.rand('refuse', i)
        d = ctx.sub('r%d' % i)
        good = [o[0] for o in rng.sample(objs, rng.randrange(0, 3))]
        o = rng.choice(objs)[1]
        kind = rng.choice(['text', 'empty', 'missing', 'dir', 'cut', 'mut', 'mut', 'mut', 'elf32', 'archive'])
        bp = os.path.join(d, 'bad.o')
        m = None
        if kind == 'text': m = b'int main(){}\n' * rng.choice([1, 1000])
        elif kind == 'empty': m = b''
        elif kind == 'dir': os.mkdir(bp)
        elif kind == 'cut': m = o[:rng.randrange(1, max(2, struct.unpack_from('<Q', o, 40)[0]))]
        elif kind == 'elf32': m = o[:4] + b'\1' + o[5:]
        elif kind == 'archive': m = b'!<arch>\n'
        elif kind == 'mut':
            m = bytearray(o)
            shoff = struct.unpack_from('<Q', o, 40)[0]
            for _ in range(rng.randrange(1, 4)):
                w = rng.random()
                if w < .4: p = rng.randrange(64)
                elif w < .9: p = shoff + rng.randrange(max(1, len(o) - shoff))
                else: p = rng.randrange(len(o))
                p = min(p, len(o) - 1)
                m[p] = rng.choice([0, 255, 127, 128, rng.randrange(256)])
            m = bytes(m)
        if m is not None: open(bp, 'wb').write(m)
        files = good[:]
        files.insert(rng.randrange(len(files) + 1), 'bad.o')
        r = runar(['rcs', 'lib.a'] + files, d)
        ctx.case(('refuse', i))
        left = [f for f in os.listdir(d) if f not in ('bad.o',)]
        if kind != 'mut' and r.rc == 0:
            bad('refuse-' + kind, 'accepted: ' + r.brief(), {'bad.o': m or b''})
        if r.rc != 0 and left:
            bad('partial-archive', '%s input refused but %r remains' % (kind, left), {'bad.o': m or b''})
        if r.rc != 0 and not r.err.strip():
            bad('silent-refusal', kind)
        if r.rc == 0 and 'lib.a' not in left:
            bad('no-archive', kind)
        ctx.obs('refused objects' if r.rc else 'accepted mutated objects')
        ctx.distinct('refusal kinds', kind)
        shutil.rmtree(d, ignore_errors=True)
    core.pmap(refuse, range(ctx.n(80, 1500)))

    # failing output
    def wfail(i):
        rng = ctx.rand('wf', i)
        d = ctx.sub('w%d' % i)
        pick = rng.sample(objs, 4)
        tot = 8 + sum(len(o[1]) + 60 for o in pick)
        lim = rng.choice([0, 8, 100, 1000, 4096, tot // 2, tot - 1])
        cmd = [P.cjit, '-ar', 'rcs', 'lib.a'] + [o[0] for o in pick]
        def pre(): 
            resource.setrlimit(resource.RLIMIT_FSIZE, (lim, lim))
        import signal as sg
        p = subprocess.run(['bash', '-c', 'trap "" XFSZ; ulimit -f unlimited; exec "$@"', 'x'] + cmd, cwd=d, capture_output=True,
                           env=P.env(), preexec_fn=lambda: (sg.signal(sg.SIGXFSZ, sg.SIG_IGN), pre()), timeout=120)
        ctx.case(('wfail', i, lim))
        ctx.obs('write failures injected')
        left = os.listdir(d)
        if p.returncode == 0:
            ok = False
            if 'lib.a' in left:
                try: ok = len(parse_ar(rd(d + '/lib.a'))[1]) == 4
                except Exception: pass
            if not ok: bad('write-failure-ignored', 'limit %d: exit 0, files %r' % (lim, left))
        elif 'lib.a' in left:
            bad('partial-archive', 'write failure at %d leaves lib.a' % lim)
        shutil.rmtree(d, ignore_errors=True)
    core.pmap(wfail, range(ctx.n(12, 60)))
    # usage errors
    d = ctx.sub('usage')
    for a in (['d', 'lib.a'], ['p', 'lib.a'], ['-q.x', 'lib.a'], ['rcs'], [], ['t', 'nofile.a'], ['x', 'nofile.a'], ['rcs', 'nodir/x.a', objs[0][0]]):
        r = runar(a, d)
        ctx.case(('usage', tuple(a)))
        if r.rc == 0 or r.rc > 128 or os.listdir(d):
            bad('usage-%s' % '_'.join(a)[:30], r.brief())
