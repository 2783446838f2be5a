"""C13 gzip decoding: exact on valid data, error on any other, memory safe."""
import os, struct, zlib
from .. import core, build
from ..gen import deflate

RULE = ('A case is one byte sequence and one output capacity given to tinf_gzip_uncompress in exact-size heap blocks under ASan/UBSan. '
        'Valid members come from zlib (levels, strategies, windows, flush points) and from a hand-written encoder (stored/fixed/dynamic blocks with '
        'random code shapes, runs crossing the tables, all length/distance codes, header flags); invalid ones are corruptions, truncations and '
        'crafted violations. Oracle: zlib on the same bytes. Non-trivial: longer than header+trailer.')
ASSUMPTIONS = ['Python zlib (madler zlib) is the reference for validity of deflate data']


def reference(b):
    """Decoded bytes if b is exactly one valid gzip member, else None.
    Returns 'skip' when reserved header rules differ between decoders."""
    if len(b) < 18 or b[0] != 31 or b[1] != 139 or b[2] != 8 or b[3] & 0xe0:
        return None
    d = zlib.decompressobj(31)
    try:
        o = d.decompress(b) + d.flush()
    except zlib.error:
        return None
    if not d.eof or d.unused_data:
        return None
    return o


def payload(rng, n):
    k = rng.randrange(5)
    if k == 0:
        return bytes(rng.randrange(256) for _ in range(n))
    if k == 1:
        return bytes([rng.randrange(256)]) * n
    if k == 2:
        return (b'int main(void) { return %d; }\n' % rng.randrange(99) * (n // 20 + 1))[:n]
    if k == 3:
        a = bytearray()
        while len(a) < n:
            if a and rng.random() < .7:
                d = rng.randrange(1, min(len(a), 40000) + 1)
                l = rng.randrange(3, 400)
                a += (bytes(a[-d:]) * (l // d + 1))[:l]
            else:
                a.append(rng.randrange(256))
        return bytes(a[:n])
    al = bytes(rng.randrange(256) for _ in range(rng.choice([1, 2, 3, 8, 30])))
    return bytes(rng.choice(al) for _ in range(n))


def valid(rng):
    size = rng.choice([0, 1, 2, 3, 10, 60, 300, 300, 2000, 2000, 8000]) if rng.random() < .96 else rng.choice([33000, 70000, 140000])
    hdr = deflate.header(rng)
    if rng.random() < .5:
        data = payload(rng, size)
        c = zlib.compressobj(rng.randrange(0, 10), zlib.DEFLATED, -rng.randrange(9, 16), rng.randrange(1, 10), rng.choice([0, 1, 2, 3, 4]))
        raw, p = b'', 0
        while p < len(data):
            q = min(len(data), p + rng.randrange(1, len(data) + 1))
            raw += c.compress(data[p:q])
            if rng.random() < .4:
                raw += c.flush(rng.choice([zlib.Z_SYNC_FLUSH, zlib.Z_FULL_FLUSH, zlib.Z_PARTIAL_FLUSH, zlib.Z_BLOCK]))
            p = q
        raw += c.flush()
        kind = 'zlib'
    else:
        raw, data, ks = deflate.stream(rng, min(size, 40000))
        kind = 'hand' + ''.join(map(str, ks))
    return deflate.gz(hdr, raw, data), data, kind, len(hdr)


def corrupt(rng, b, hl):
    b = bytearray(b)
    k = rng.randrange(9)
    if k == 0:
        return bytes(b[:rng.randrange(len(b))]), 'truncate'
    if k == 1:
        for _ in range(rng.randrange(1, 4)):
            i = rng.randrange(len(b))
            b[i] ^= 1 << rng.randrange(8)
        return bytes(b), 'bitflip'
    if k == 2:
        i = rng.randrange(min(len(b), hl + 40))
        b[i] = rng.randrange(256)
        return bytes(b), 'byte'
    if k == 3:   # the stream cut, trailer kept
        i = rng.randrange(hl, len(b) - 7)
        return bytes(b[:i] + b[-8:]), 'cut-inside'
    if k == 4:   # garbage between data and trailer
        return bytes(b[:-8]) + bytes(rng.randrange(256) for _ in range(rng.randrange(1, 9))) + bytes(b[-8:]), 'garbage-inside'
    if k == 5:
        return bytes(b) + bytes(rng.randrange(256) for _ in range(rng.randrange(1, 9))), 'garbage-after'
    if k == 6:
        b[-8 + rng.randrange(8)] ^= 1 << rng.randrange(8)
        return bytes(b), 'trailer'
    if k == 7:   # raw random block data
        n = rng.randrange(1, 60)
        raw = bytearray(rng.randrange(256) for _ in range(n))
        raw[0] = (raw[0] & ~7) | rng.choice([1, 3, 5, 5, 5, 7, 0, 2, 4])
        return bytes(b[:hl]) + bytes(raw) + bytes(b[-8:]), 'random-blocks'
    i = rng.randrange(hl, len(b))
    del b[i:i + rng.randrange(1, 4)]
    return bytes(b), 'delete'


def crafted(rng):
    """streams that violate one rule each"""
    bw = deflate.Bits()
    k = rng.randrange(9)
    pre = rng.randrange(0, 5)
    out = bytearray()
    if pre:
        deflate.block(rng, bw, out, pre, False, 1)
    fin = 1
    if k == 0:      # distance one beyond the beginning
        bw.put(fin, 1); bw.put(1, 2)
        d = len(out) + 1 + rng.choice([0, 0, 5, 300])
        bw.code(1, 7)            # length 3
        c, x, nb = deflate.dcode(min(d, 32768))
        bw.code(c, 5); bw.put(x, nb); bw.code(0, 7)
        data = bytes(out) + b'abc'
    elif k == 1:    # distance codes 30/31, length symbols 286/287
        bw.put(fin, 1); bw.put(1, 2)
        if rng.random() < .5:
            bw.code(1, 7); bw.code(rng.choice([30, 31]), 5)
        else:
            bw.code(0xc0 + rng.choice([6, 7]), 8); bw.code(0, 5)
        bw.code(0, 7)
        data = bytes(out)
    elif k == 2:    # block type 3
        bw.put(fin, 1); bw.put(3, 2); bw.put(rng.getrandbits(30), 30)
        data = bytes(out)
    elif k == 3:    # stored length complement wrong, or too long
        bw.put(fin, 1); bw.put(0, 2); bw.align()
        n = rng.randrange(0, 9)
        bw.out += struct.pack('<HH', n + (0 if rng.random() < .5 else 9), (n ^ 0xffff) ^ (1 if rng.random() < .5 else 0)) + bytes(n)
        data = bytes(out) + bytes(n)
    elif k in (4, 5):    # bad tables: over-subscribed, incomplete, no end of block, repeat first
        bw.put(fin, 1); bw.put(2, 2)
        hl, hd = rng.choice([257, 258, 286, 287, 288]), rng.choice([1, 2, 30, 31, 32])
        bw.put(hl - 257, 5); bw.put(hd - 1, 5); bw.put(15, 4)
        cl = [0] * 19
        for s in rng.sample(range(19), rng.randrange(0, 8)):
            cl[s] = rng.randrange(1, 5)
        if rng.random() < .6:
            cl = deflate.rand_lengths(rng, sorted(rng.sample(range(19), rng.randrange(2, 10))), 19, 7)
        for s in deflate.CL:
            bw.put(cl[s], 3)
        for _ in range(rng.randrange(200)):
            bw.put(rng.getrandbits(8), 8)
        data = bytes(out)
    elif k == 6:    # no final block
        deflate.block(rng, bw, out, 5, False, rng.choice([0, 1, 2]))
        data = bytes(out)
    elif k == 8:    # a table with a single code, whose missing sibling may be used
        bw.put(fin, 1); bw.put(2, 2)
        lits = sorted(rng.sample(range(256), rng.randrange(1, 5))) + [256] + sorted(rng.sample(range(257, 265), rng.randrange(1, 3)))
        L = deflate.rand_lengths(rng, lits, 286, 15)
        if rng.random() < .15:   # only the end-of-block code
            L = [0] * 286
            L[256] = 1
        hd = rng.choice([1, 1, 2, 5, 29, 30])
        D = [0] * hd
        dsym = rng.randrange(min(hd, 4))
        D[dsym] = rng.choice([1, 1, 1, 1, 2])
        bw.put(286 - 257, 5); bw.put(hd - 1, 5); bw.put(15, 4)
        cl = [4] * 16 + [0] * 3
        for s in deflate.CL:
            bw.put(cl[s], 3)
        cc = deflate.canon(cl)
        for x in L + D:
            bw.code(*cc[x])
        lc = deflate.canon(L)
        data = bytearray(out)
        for _ in range(rng.randrange(3, 9)):
            s = rng.choice([x for x in lits if x != 256])
            if L[s] == 0:
                continue
            if s < 256:
                bw.code(*lc[s])
                data.append(s)
            elif data and len(data) > dsym:
                bw.code(*lc[s])
                bw.code(1 if rng.random() < .3 else 0, 1)
                for _ in range(s - 254):
                    data.append(data[-1 - dsym])
        if L[lits[0]] == 0 and rng.random() < .5:
            bw.code(1, 1)
        bw.code(*lc[256])
        data = bytes(data)
    else:           # table without end-of-block or with incomplete code
        bw.put(fin, 1); bw.put(2, 2)
        bw.put(0, 5); bw.put(0, 5); bw.put(15, 4)
        cl = [0] * 19
        for s in (0, 1, 2, 18):
            cl[s] = 2
        for s in deflate.CL:
            bw.put(cl[s], 3)
        cc = deflate.canon(cl)
        L = [0] * 256 + [rng.choice([0, 1, 2])]
        for s in rng.sample(range(256), rng.randrange(0, 4)):
            L[s] = rng.choice([1, 2])
        for x in L + [rng.choice([0, 1])]:
            bw.code(*cc[x])
        for _ in range(4):
            bw.put(rng.getrandbits(8), 8)
        data = bytes(out)
    return deflate.gz(deflate.header(rng), bw.done(), data), 'crafted%d' % k


def check(ctx):
    src = os.path.join(core.REPO, 'src')
    exe = build.cc(ctx, os.path.join(ctx.dir, 'gz'), [os.path.join(core.VERIF, 'harness/gunzip_h.c'), os.path.join(src, 'tinflate.c'), os.path.join(src, 'tinfgzip.c')],
                   ['-g', '-O1', '-I' + src, '-fno-omit-frame-pointer'] + build.SAN.split())
    batches, per = ctx.n(120, 1600), 150

    def one(bi):
        import random
        rng = random.Random('c13/%d/%d' % (ctx.seed, bi))
        cases = []
        for i in range(per):
            b, data, kind, hl = valid(rng)
            if reference(b) != data:
                raise core.HarnessError('generator produced an invalid %s stream' % kind)
            cases.append((b, len(data), data, kind))
            if i % 3 == 0:
                cases.append((b, len(data) + rng.randrange(1, 40), data, kind))
            if len(data):
                cases.append((b, rng.randrange(len(data)), 'big', kind))
            for _ in range(2):
                c, ck = corrupt(rng, b, hl) if rng.random() < .75 else crafted(rng)
                w = reference(c)
                cap = len(w) if w is not None else rng.choice([0, 1, 64, 5000, 70000])
                cases.append((c, cap, w, ck))
        return cases

    from concurrent.futures import ProcessPoolExecutor
    env = dict(os.environ, ASAN_OPTIONS='detect_leaks=1')

    def judge(cases):
        inp = b''.join(struct.pack('<II', len(b), cap) + b for b, cap, w, k in cases)
        r = core.run_wd([exe], input=inp, timeout=60, env=env)
        out, p, idx = r.out, 0, 0
        for b, cap, w, kind in cases:
            if p + 8 > len(out):
                ctx.violation('%s %s' % (kind if r.timeout else '', core.san_key(r.err) if core.san_report(r.err) else ('hang' if r.timeout else 'died')),
                              'decoder stopped on a %s stream of %d bytes, capacity %d: %s' % (kind, len(b), cap, r.brief()), {'input.gz': b, 'capacity': str(cap)})
                return
            ret, ln = struct.unpack_from('<iI', out, p)
            p += 8
            got = out[p:p + ln]
            p += ln
            ctx.case((hash(b), cap), nontrivial=len(b) > 18)
            ctx.distinct('stream_kinds', kind[:12])
            rep = {'input.gz': b, 'capacity': str(cap)}
            if w == 'big':
                ctx.obs('too_large')
                if ret == 0:
                    ctx.violation('accepted-too-large', '%s: output of more than %d bytes reported as decoded' % (kind, cap), rep)
                elif ret != -5:
                    ctx.violation('wrong-error-too-large', '%s: returned %d instead of buffer error' % (kind, ret), rep)
            elif w is None:
                ctx.obs('invalid')
                if ret == 0:
                    ctx.violation('accepted-invalid/' + kind, 'invalid data (%s, %d bytes, cap %d) decoded to %d bytes without error' % (kind, len(b), cap, ln), rep)
                elif ret in (77, 78):
                    ctx.violation('harness-code-%d' % ret, 'input modified or length beyond capacity', rep)
            else:
                ctx.obs('valid')
                ctx.obs('bytes_decoded', len(w))
                if ret != 0:
                    ctx.violation('rejected-valid/%s' % kind[:4], 'valid stream (%s, %d bytes -> %d) returned %d' % (kind, len(b), len(w), ret), rep)
                elif got != w:
                    ctx.violation('wrong-bytes/%s' % kind[:4], 'stream %s decoded to different bytes (%d, expected %d)' % (kind, ln, len(w)), rep)
        if r.rc != 0:
            ctx.violation(core.san_key(r.err), r.brief())
    global _gen
    _gen = one
    with ProcessPoolExecutor(max_workers=core.NCPU, mp_context=__import__('multiprocessing').get_context('fork')) as ex:
        for cases in ex.map(_call, range(batches)):
            judge(cases)
            ctx.sample({'kind': cases[0][3], 'stream': cases[0][0][:60].hex(), 'length': len(cases[0][0])}, 4)


_gen = None


def _call(i):
    return _gen(i)
