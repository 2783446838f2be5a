"""C14 tar extraction: faithful, contained, failures reported; ASan/UBSan."""
import os, io, struct, tarfile, zlib, gzip, shutil, hashlib
from .. import core, build

RULE = ('A case is one archive (plain or gzip) extracted into a fresh destination by the extractor of cjit under ASan/UBSan, '
        'or through cjit --xtgz; the tree below the destination and the tree around it are compared with the expected one. '
        'Archives: hand-written USTAR (all name/prefix splits, sizes around block limits, any order, missing parents, other member types), '
        'Python tarfile, GNU tar; corruptions and truncations; write failures by file size limit, full device and type conflicts. '
        'Non-trivial: at least one member.')
ASSUMPTIONS = ['destination names up to 100 bytes', 'every hostile name stays inside the scratch directory by construction']


def hdr(name, size, typ=b'0', prefix=b'', mode=0o644, link=b'', magic=b'ustar\x0000', style=0, sumdelta=0, sizefield=None):
    def num(v, n):
        if style == 1:
            return (b'%0*o ' % (n - 1, v))
        if style == 2 and n == 8:
            return (b'%0*o \0' % (n - 2, v))
        if style == 3:
            return (b'%o' % v).ljust(n, b'\0')
        return b'%0*o\0' % (n - 1, v)
    h = bytearray(name.ljust(100, b'\0') + num(mode, 8) + num(0, 8) + num(0, 8) + (sizefield or num(size, 12)) +
                  num(1700000000, 12) + b' ' * 8 + typ + link.ljust(100, b'\0') + magic + b'root'.ljust(32, b'\0') * 2 +
                  num(0, 8) * 2 + prefix.ljust(155, b'\0') + bytes(12))
    assert len(h) == 512
    s = (sum(h) + sumdelta) & 0o777777
    h[148:156] = b'%06o\0 ' % s
    return bytes(h)


def split(rng, full):
    """name/prefix split of a path, any legal one"""
    opts = [(b'', full)] if len(full) <= 100 else []
    for i, c in enumerate(full):
        if c == 47 and 0 < i <= 155 and 0 < len(full) - i - 1 <= 100:
            opts.append((full[:i], full[i + 1:]))
    return rng.choice(opts) if opts else None


def rname(rng, n=None):
    n = n or rng.choice([1, 2, 5, 8, 20, 60, 90, 99, 100])
    a = 'abcdefghijklmnopqrstuvwxyzABC0123456789-_. +~#@'
    s = ''.join(rng.choice(a) for _ in range(n)).strip('. ').replace('..', '.x')
    if rng.random() < .1:
        s = 'é' + s[2:]
    return (s or 'f').encode()[:n] if n != 100 else (s or 'f').encode()[:100]


def content(rng, n):
    if rng.random() < .5:
        return bytes([rng.randrange(256)]) * n
    if rng.random() < .5:
        return (bytes(rng.getrandbits(8) for _ in range(min(n, 4999))) * (n // 4999 + 1))[:n]
    return (b'#include <stdio.h>\n' * (n // 19 + 1))[:n]


SIZES = [0, 0, 1, 2, 100, 511, 512, 513, 1000, 1023, 1024, 1025, 5000, 10240]


def make(rng, depth=0):
    """-> archive bytes (tar), expected {path: bytes|None for dirs}, members"""
    style = rng.choice([0, 0, 0, 1, 2, 3])
    exp, mem = {}, []
    dirs = [b'']
    nfile = rng.choice([0, 1, 1, 2, 3, 5, 9, 20])
    for _ in range(rng.randrange(0, 5)):
        d = rng.choice(dirs)
        p = (d + b'/' if d else b'') + rname(rng, rng.choice([1, 3, 8, 30, 70]))
        if len(p) < 200 and p not in dirs:
            dirs.append(p)
    listed = [d for d in dirs[1:] if rng.random() < .7]
    # implied parents: dirs that only appear through members
    for d in listed:
        s = split(rng, d)
        if not s:
            continue
        pre, nm = s
        if len(nm) < 100 and rng.random() < .7:
            nm += b'/'
        mem.append((hdr(nm, 0, b'5', pre, 0o755, style=style), b'', d, None))
    for _ in range(nfile):
        d = rng.choice(dirs)
        p = (d + b'/' if d else b'') + rname(rng)
        if p in dirs or p in exp or any(x[2] == p for x in mem) or any(x.startswith(p + b'/') for x in dirs):
            continue
        s = split(rng, p)
        if not s:
            continue
        n = rng.choice(SIZES) if rng.random() < .95 else rng.randrange(100000, 400000)
        c = content(rng, n)
        t = b'\0' if rng.random() < .1 else b'0'
        mem.append((hdr(s[1], n, t, s[0], rng.choice([0o644, 0o755, 0o600, 0]), style=style), c, p, c))
    for _ in range(rng.choice([0, 0, 0, 1, 2])):     # types that are not extracted
        t = rng.choice([b'1', b'2', b'3', b'4', b'6'])
        n = 0
        mem.append((hdr(rname(rng, 7) + b'_sp', n, t, link=rng.choice([b'target', b'/etc/hostname']), style=style), b'', None, None))
    if rng.random() < .15:
        body = b'30 mtime=1700000000.123456789\n'
        mem.append((hdr(b'pax_global_header', len(body), b'g', style=style), body, None, None))
    order = rng.random()
    if order < .5:
        rng.shuffle(mem)
    # a later duplicate wins
    if mem and rng.random() < .2:
        c = [m for m in mem if m[3] is not None]
        if c:
            o = rng.choice(c)
            n = rng.choice(SIZES)
            cc = content(rng, n)
            s = split(rng, o[2])
            mem.append((hdr(s[1], n, b'0', s[0], style=style), cc, o[2], cc))
    for h, c, p, want in mem:
        if p is None:
            continue
        q = p
        while b'/' in q:
            q = q[:q.rindex(b'/')]
            exp.setdefault(q, None)
        exp[p] = want
    out = b''.join(h + c + bytes(-len(c) % 512) for h, c, p, w in mem)
    out += bytes(512 * rng.choice([1, 2, 2, 2, 20 - (len(out) // 512) % 20]))
    return out, exp, mem


def snapshot(d):
    """path -> bytes hash / None, for everything below d"""
    out = {}
    d = os.fsencode(d)
    for r, ds, fs in os.walk(d):
        for x in ds + fs:
            p = os.path.join(r, x)
            rel = os.path.relpath(p, d)
            if os.path.islink(p):
                out[rel] = b'->' + os.readlink(p)
            elif os.path.isdir(p):
                out[rel] = None
            else:
                with open(p, 'rb') as f:
                    out[rel] = f.read()
    return out


class Runner:
    def __init__(s, ctx, exe, i):
        s.ctx, s.exe, s.dir = ctx, exe, ctx.sub('w%d' % i)
        s.n = 0
        s.p = None
        s.start()

    def start(s):
        import subprocess
        s.errf = open(os.path.join(s.dir, 'stderr'), 'wb+')
        s.p = subprocess.Popen([s.exe], stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=s.errf,
                               env=dict(os.environ, ASAN_OPTIONS='detect_leaks=0:allocator_may_return_null=1', UBSAN_OPTIONS='print_stacktrace=1'), start_new_session=True)

    def case(s, arc, kind='tar', fsize=0, prep=None, destname='out', mkdest=True, rel=False):
        """-> (rc or None, tree, outside_changed, stderr)"""
        import threading
        top = os.path.join(s.dir, 'c')
        shutil.rmtree(top, ignore_errors=True)
        cwd = os.path.join(top, 'p/q/r')
        os.makedirs(cwd)
        for x in ('p/bystander', 'p/q/bystander', 'p/q/r/bystander'):
            with open(os.path.join(top, x), 'w') as f:
                f.write('untouched')
        dest = os.path.join(cwd, destname)
        if mkdest:
            os.mkdir(dest)
        if prep:
            prep(dest)
        af = os.path.join(s.dir, 'archive')
        with open(af, 'wb') as f:
            f.write(arc)
        before = {k: v for k, v in snapshot(top).items() if not (k + b'/').startswith(b'p/q/r/' + destname.encode() + b'/')}
        s.errf.seek(0)
        s.errf.truncate()
        t = threading.Timer(60, s.p.kill)
        t.start()
        try:
            s.p.stdin.write(('%s %d %s %s %s\n' % (kind, fsize, cwd, destname if rel else dest, af)).encode())
            s.p.stdin.flush()
            l = s.p.stdout.readline().decode()
        except BrokenPipeError:
            l = ''
        t.cancel()
        s.errf.seek(0)
        err = s.errf.read().decode('utf-8', 'replace')
        after = {k: v for k, v in snapshot(top).items() if not (k + b'/').startswith(b'p/q/r/' + destname.encode() + b'/')}
        tree = snapshot(dest)
        if not l.startswith('RC'):
            s.p.wait()
            s.start()
            return None, tree, before != after, err
        return int(l.split()[1]), tree, before != after, err

    def close(s):
        s.p.stdin.close()
        s.p.wait()


def check(ctx):
    src = os.path.join(core.REPO, 'src')
    exe = build.cc(ctx, os.path.join(ctx.dir, 'untar'), [os.path.join(core.VERIF, 'harness/untar_h.c')] +
                   [os.path.join(src, f) for f in ('muntar.c', 'tinflate.c', 'tinfgzip.c')],
                   ['-g', '-O1', '-w', '-I' + src, '-fno-omit-frame-pointer'] + build.SAN.split())
    b = build.build(ctx, 'plain')
    b.warm()
    per = ctx.n(140, 2500)

    def worker(wi):
        rng = ctx.rand('w', wi)
        R = Runner(ctx, exe, wi)

        def verdict(what, arc, res, want, exp=None, mem=0, fatal=True):
            """want: 'ok' (tree exact), 'error', 'any'"""
            rc, tree, outside, err = res
            ctx.case((wi, what, hashlib.sha1(arc).digest()[:8]), nontrivial=mem > 0)
            ctx.obs(what)
            rep = {'archive': arc, 'stderr.txt': err}
            san = core.san_report(err)
            if rc is None or san:
                ctx.violation(what + ' ' + core.san_key(err) if san else what + ' died', 'extractor died: %s\n%s' % (san, err[-2500:]), rep)
                return
            if outside:
                ctx.violation(what + '/outside', 'something outside the destination was created or changed (rc %d)' % rc, rep)
                return
            if rc == 7777:
                ctx.violation(what + '/archive-modified', 'input bytes were modified', rep)
            if want == 'error' and rc == 0:
                ctx.violation(what + '/no-error', 'extraction reported success', rep)
            if want == 'ok':
                if rc != 0:
                    ctx.violation(what + '/failed', 'valid archive refused with %d: %s' % (rc, err[-500:]), rep)
                elif tree != exp:
                    d = [k for k in sorted(set(tree) | set(exp)) if tree.get(k, 0) != exp.get(k, 0)]
                    ctx.violation(what + '/tree', 'extracted tree differs at %r: got %r want %r' % (
                        d[:3], [tree.get(k, 'absent') if not isinstance(tree.get(k), bytes) else len(tree[k]) for k in d[:3]],
                        [exp.get(k, 'absent') if not isinstance(exp.get(k), bytes) else len(exp[k]) for k in d[:3]]), rep)
                else:
                    ctx.obs('members_verified', len(exp))

        def pack(t):
            k = rng.random()
            if k < .6:
                return t, 'tar'
            g = zlib.compressobj(rng.randrange(0, 10), zlib.DEFLATED, 31)
            return g.compress(t) + g.flush(), 'gz'

        for it in range(per):
            t, exp, mem = make(rng)
            arc, kind = pack(t)
            verdict('valid-' + kind, arc, R.case(arc, kind, destname=rng.choice(['out', 'o' * 30, 'd.e']), mkdest=rng.random() < .7, rel=rng.random() < .3), 'ok', exp, len(mem))
            if it == 0:
                ctx.sample({'members': [m[2].decode('utf-8', 'replace')[:60] if m[2] else 'special' for m in mem][:8], 'kind': kind, 'bytes': len(arc)})
            # --- other writers
            if it % 6 == 0:
                bio = io.BytesIO()
                tf = tarfile.open(fileobj=bio, mode='w', format=tarfile.USTAR_FORMAT)
                e2 = {}
                for p, c in sorted(exp.items(), key=lambda x: rng.random()):
                    try:
                        ti = tarfile.TarInfo(p.decode())
                        if c is None:
                            ti.type = tarfile.DIRTYPE
                        else:
                            ti.size = len(c)
                        tf.addfile(ti, io.BytesIO(c or b''))
                    except (ValueError, UnicodeDecodeError):
                        continue
                    q = p
                    while b'/' in q:
                        q = q[:q.rindex(b'/')]
                        e2.setdefault(q, None)
                    e2[p] = c
                tf.close()
                arc, kind = pack(bio.getvalue())
                verdict('tarfile-' + kind, arc, R.case(arc, kind), 'ok', e2, len(e2))
            if it % 12 == 0:
                top = os.path.join(R.dir, 'g')
                shutil.rmtree(top, ignore_errors=True)
                os.mkdir(top)
                e3 = {}
                for p, c in sorted(exp.items()):
                    if len(p) > 120:
                        continue
                    q = os.path.join(os.fsencode(top), p)
                    if c is None:
                        os.makedirs(q, exist_ok=True)
                    else:
                        os.makedirs(os.path.dirname(q), exist_ok=True)
                        with open(q, 'wb') as f:
                            f.write(c)
                r = core.run(['tar', '--format=ustar', '-b%d' % rng.choice([1, 2, 20]), '-cf', os.path.join(R.dir, 'g.tar'), '-C', top, '.'])
                if r.rc == 0:
                    with open(os.path.join(R.dir, 'g.tar'), 'rb') as f:
                        arc, kind = pack(f.read())
                    verdict('gnutar-' + kind, arc, R.case(arc, kind), 'ok', snapshot(top), len(exp))
            # --- hostile names, all confined to the scratch tree
            if it % 4 == 0:
                up = b'../' * rng.randrange(1, 4)
                tgt = rng.choice([up + b'evil', up + b'bystander', b'a/' + b'../' + up + b'evil', b'..', up + b'bystander/', b'a/..', b'x/../../bystander', os.path.join(R.dir, 'c/p/abs').encode()])
                where = rng.random()
                typ = rng.choice([b'0', b'5', b'\0'])
                body = b'evil' if typ != b'5' else b''
                if where < .5 and len(tgt) <= 100:
                    h = hdr(tgt, len(body), typ)
                elif where < .75 and len(tgt) <= 100:
                    h = hdr(tgt, len(body), typ, rng.choice([b'sub', b'a/b', b'a..', b'..a/b']))
                else:
                    h = hdr(b'evil', len(body), typ, tgt[:155])
                good = hdr(b'good', 3) + b'abc' + bytes(509)
                arc = (good if rng.random() < .5 else b'') + h + (body + bytes(512 - len(body)) if body else b'') + (good if rng.random() < .3 else b'') + bytes(1024)
                arc, kind = pack(arc)
                # an absolute name lands inside the destination or is refused
                verdict('hostile-name', arc, R.case(arc, kind), 'any' if tgt.startswith(b'/') or tgt in (b'a/..',) else 'error', None, 1)
            # --- malformed
            if mem:
                k = rng.randrange(8)
                bt = bytearray(t)
                offs, o = [], 0
                for h, c, p, w in mem:
                    offs.append(o)
                    o += 512 + len(c) + (-len(c) % 512)
                mi = rng.randrange(len(mem))
                want, what = 'error', ''
                if k == 0:
                    i = offs[mi] + rng.choice([x for x in range(500) if not 148 <= x < 156])
                    bt[i] = (bt[i] + rng.randrange(1, 255)) % 256
                    what = 'bad-checksum'
                elif k == 1:
                    bt[offs[mi]:offs[mi] + 512] = hdr(b'm', len(mem[mi][1]), magic=rng.choice([b'ustaR\x0000', b'\0' * 8, b'USTAR\x0000', b'ustar000']))
                    what = 'bad-magic'
                elif k == 2:
                    big = rng.choice([len(t), len(t) + 1, 0o77777777777, 1 << 31, 1 << 32, (1 << 32) - 512, len(t) - offs[mi] - 511])
                    bt[offs[mi]:offs[mi] + 512] = hdr(b'm', big)
                    what = 'size-beyond-end'
                elif k == 3:
                    e = offs[mi] + 512 + len(mem[mi][1])
                    lo = offs[mi] + 1
                    if e - 1 > lo:
                        del bt[rng.randrange(lo, e):]
                        what = 'truncated'
                elif k == 4:
                    del bt[rng.randrange(offs[mi] + 1, offs[mi] + 512):]
                    what = 'truncated-header'
                elif k == 5:
                    for _ in range(rng.randrange(1, 20)):
                        bt[rng.randrange(len(bt))] = rng.randrange(256)
                    want, what = 'any', 'random-bytes'
                elif k == 6:
                    sf = rng.choice([b'99999999999\0', b'-0000000001\0', b'\x80' + bytes(10) + b'\x05', b'\xff' * 12, b'           \0', b'0x000000010\0', b'777777777777', b'             '[:12]])
                    bt[offs[mi]:offs[mi] + 512] = hdr(b'm', 0, sizefield=sf)
                    want, what = 'any', 'odd-size-field'
                else:
                    del bt[:rng.randrange(1, 512)]
                    want, what = 'any', 'shifted'
                if what:
                    arc = bytes(bt)
                    kind = 'tar'
                    if rng.random() < .3:
                        arc, kind = pack(arc)
                    verdict(what, arc, R.case(arc, kind), want, None, len(mem))
                if it % 3 == 0:
                    g = bytearray(gzip.compress(t))
                    k = rng.randrange(4)
                    if k == 0:
                        g[rng.randrange(10, len(g))] ^= 1 << rng.randrange(8)
                    elif k == 1:
                        del g[rng.randrange(len(g)):]
                    elif k == 2:
                        g[-4:] = struct.pack('<I', rng.choice([0, 1, len(t) - 1, len(t) + 1, 0xffffffff, 0x7fffffff, len(g) * 1032 + 1000]))
                    else:
                        g += b'garbage'
                    # a flip in the padding of the last block's final byte (or a
                    # length equal to the real one) leaves a valid stream
                    z, valid = zlib.decompressobj(31), False
                    try:
                        z.decompress(bytes(g))
                        valid = z.eof and not z.unused_data
                    except zlib.error:
                        pass
                    verdict('corrupt-gzip', bytes(g), R.case(bytes(g), 'gz'), 'any' if valid or not g else 'error', None, len(mem))
            # --- write failures
            if it % 3 == 0:
                c = content(rng, rng.choice([10, 600, 5000, 9000]))
                pos = rng.random() < .5
                other = hdr(b'other', 3) + b'abc' + bytes(509)
                t2 = (other if pos else b'') + hdr(b'victim', len(c)) + c + bytes(-len(c) % 512) + (b'' if pos else other) + bytes(1024)
                arc, kind = pack(t2)
                k = rng.randrange(7)
                kw = {}
                if k == 0:
                    kw['fsize'] = max(4, len(c) - rng.choice([1, 3, len(c) // 2]))
                elif k == 1:
                    kw['prep'] = lambda d: os.symlink('/dev/full', os.path.join(d, 'victim'))
                elif k == 2:
                    kw['prep'] = lambda d: os.mkdir(os.path.join(d, 'victim'))
                elif k == 3:
                    arc, kind = pack(hdr(b'victim/', 0, b'5') + bytes(1024))
                    kw['prep'] = lambda d: open(os.path.join(d, 'victim'), 'w').close()
                elif k == 4:
                    arc, kind = pack(hdr(b'f', len(c), prefix=b'victim/sub') + c + bytes(-len(c) % 512) + bytes(1024))
                    kw['prep'] = lambda d: open(os.path.join(d, 'victim'), 'w').close()
                elif k == 5:
                    kw['mkdest'] = False
                    kw['prep'] = lambda d: open(d, 'w').close()
                else:
                    kw['mkdest'] = False
                    kw['destname'] = 'missing-parent/out'
                if k == 0 and rng.random() < .3:
                    kw['prep'] = None
                verdict('write-failure-%d' % k, arc, R.case(arc, kind, **kw), 'error', None, 1)
            # --- the command line
            if it % 10 == 0:
                ok = rng.random() < .6
                g = gzip.compress(t)
                if not ok:
                    g = g[:rng.randrange(1, len(g))]
                d = os.path.join(R.dir, 'cli')
                shutil.rmtree(d, ignore_errors=True)
                os.makedirs(d + '/in')
                with open(d + '/a.tgz', 'wb') as f:
                    f.write(g)
                if ok or len(g) > 0:
                    r = core.run_wd([b.cjit, '--xtgz', '../a.tgz'], cwd=d + '/in', timeout=30)
                    tree = snapshot(d + '/in')
                    ctx.case(('cli', wi, it))
                    ctx.obs('cli')
                    if ok and (r.rc != 0 or tree != exp):
                        ctx.violation('cli/valid', 'cjit --xtgz: ' + r.brief(), {'archive.tgz': g})
                    if not ok and r.rc == 0:
                        ctx.violation('cli/no-error', 'cjit --xtgz of a truncated archive exits 0: ' + r.brief(), {'archive.tgz': g})
                    if r.sig:
                        ctx.violation('cli/signal', r.brief(), {'archive.tgz': g})
        R.close()
    core.pmap(worker, range(core.NCPU))
