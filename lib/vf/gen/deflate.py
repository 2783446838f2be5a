"""Hand-built deflate streams: every block type, arbitrary (valid) Huffman
codes, matches at every length/distance, plus gzip headers with any flags."""
import struct, zlib

LB = [3, 4, 5, 6, 7, 8, 9, 10, 11, 13, 15, 17, 19, 23, 27, 31, 35, 43, 51, 59, 67, 83, 99, 115, 131, 163, 195, 227, 258]
LX = [0, 0, 0, 0, 0, 0, 0, 0, 1, 1, 1, 1, 2, 2, 2, 2, 3, 3, 3, 3, 4, 4, 4, 4, 5, 5, 5, 5, 0]
DB = [1, 2, 3, 4, 5, 7, 9, 13, 17, 25, 33, 49, 65, 97, 129, 193, 257, 385, 513, 769, 1025, 1537, 2049, 3073, 4097, 6145, 8193, 12289, 16385, 24577]
DX = [0, 0, 0, 0, 1, 1, 2, 2, 3, 3, 4, 4, 5, 5, 6, 6, 7, 7, 8, 8, 9, 9, 10, 10, 11, 11, 12, 12, 13, 13]
CL = [16, 17, 18, 0, 8, 7, 9, 6, 10, 5, 11, 4, 12, 3, 13, 2, 14, 1, 15]


class Bits:
    def __init__(s):
        s.b, s.n, s.out = 0, 0, bytearray()

    def put(s, v, n):
        s.b |= v << s.n
        s.n += n
        while s.n >= 8:
            s.out.append(s.b & 255)
            s.b >>= 8
            s.n -= 8

    def code(s, c, n):      # Huffman codes go most significant bit first
        for i in range(n - 1, -1, -1):
            s.put((c >> i) & 1, 1)

    def align(s):
        if s.n:
            s.put(0, 8 - s.n)

    def done(s):
        s.align()
        return bytes(s.out)


def canon(lengths):
    codes, c = {}, 0
    for l in range(1, 16):
        for i, x in enumerate(lengths):
            if x == l:
                codes[i] = (c, l)
                c += 1
        c <<= 1
    return codes


def rand_lengths(rng, syms, n, maxlen=15):
    """A complete code over the given symbols with random shape."""
    syms = list(syms)
    L = [0] * n
    if len(syms) == 1:
        L[syms[0]] = 1
        return L
    leaves = [1, 1]
    while len(leaves) < len(syms):
        c = [i for i, d in enumerate(leaves) if d < maxlen]
        # skewed choice gives long codes
        i = max(c, key=lambda k: leaves[k]) if rng.random() < .3 else rng.choice(c)
        d = leaves.pop(i)
        leaves += [d + 1, d + 1]
    rng.shuffle(leaves)
    for s, d in zip(syms, leaves):
        L[s] = d
    return L


def lcode(rng, n):
    c = [i for i in range(29) if LB[i] <= n and n - LB[i] < (1 << LX[i])]
    if n == 258:
        c = [28]
    i = c[-1]
    return i, n - LB[i], LX[i]


def dcode(d):
    i = max(k for k in range(30) if DB[k] <= d)
    return i, d - DB[i], DX[i]


def tokens(rng, out, n):
    """Random literals/matches extending out (bytearray); returns tokens."""
    tk = []
    mode = rng.random()
    end = len(out) + n
    while len(out) < end:
        if out and rng.random() < mode:
            ln = rng.choice([3, 4, 10, 11, 12, 18, 19, 34, 35, 66, 67, 114, 115, 130, 131, 162, 163, 226, 227, 257, 258]) if rng.random() < .6 else rng.randrange(3, 259)
            mx = min(len(out), 32768)
            d = rng.choice([1, min(2, mx), mx, max(1, mx - 1)]) if rng.random() < .4 else (rng.choice([x for x in DB if x <= mx]) if rng.random() < .5 else rng.randrange(1, mx + 1))
            tk.append((ln, d))
            st = len(out) - d
            for k in range(ln):
                out.append(out[st + k])
        else:
            c = rng.randrange(256)
            tk.append(c)
            out.append(c)
    return tk


def block(rng, bw, out, n, final, kind):
    bw.put(1 if final else 0, 1)
    if kind == 0:
        bw.put(0, 2)
        bw.align()
        data = bytes(rng.randrange(256) for _ in range(min(n, 65535)))
        bw.out += struct.pack('<HH', len(data), len(data) ^ 0xffff) + data
        out += data
        return
    tk = tokens(rng, out, n)
    if kind == 1:
        bw.put(1, 2)
        ll = [8] * 144 + [9] * 112 + [7] * 24 + [8] * 8
        dl = [5] * 32
    else:
        bw.put(2, 2)
        ls, ds = {256}, set()
        for t in tk:
            if isinstance(t, tuple):
                ls.add(257 + lcode(rng, t[0])[0])
                ds.add(dcode(t[1])[0])
            else:
                ls.add(t)
        for _ in range(rng.randrange(0, 6)):
            ls.add(rng.randrange(286))
        if ds or rng.random() < .3:
            for _ in range(rng.randrange(0, 3)):
                ds.add(rng.randrange(30))
        if len(ls) == 1:
            ls.add(rng.randrange(256))
        hl = max(257, max(ls) + 1)
        hd = max(1, (max(ds) + 1) if ds else 1)
        if rng.random() < .3:
            hl, hd = rng.randrange(hl, 287), rng.randrange(hd, 31)
        ll = rand_lengths(rng, sorted(ls), hl)
        dl = rand_lengths(rng, sorted(ds), hd) if ds else [0] * hd
        seq = ll + dl
        # run-length encode with random choices, runs may cross the boundary
        items, i = [], 0
        while i < len(seq):
            r = 1
            while i + r < len(seq) and seq[i + r] == seq[i]:
                r += 1
            if seq[i] == 0 and r >= 11 and rng.random() < .9:
                k = rng.randrange(11, min(r, 138) + 1) if rng.random() < .3 else min(r, 138)
                items.append((18, k - 11, 7)); i += k
            elif seq[i] == 0 and r >= 3 and rng.random() < .9:
                k = min(r, 10); items.append((17, k - 3, 3)); i += k
            elif i and seq[i] == seq[i - 1] and r >= 3 and rng.random() < .9:
                k = rng.randrange(3, min(r, 6) + 1); items.append((16, k - 3, 2)); i += k
            else:
                items.append((seq[i], 0, 0)); i += 1
        used = {x[0] for x in items}
        if len(used) == 1:
            used.add((list(used)[0] + 1) % 16)
        cl = rand_lengths(rng, sorted(used), 19, maxlen=7)
        hc = max(k for k in range(19) if cl[CL[k]]) + 1
        hc = max(4, hc)
        if rng.random() < .2:
            hc = 19
        bw.put(hl - 257, 5); bw.put(hd - 1, 5); bw.put(hc - 4, 4)
        for k in range(hc):
            bw.put(cl[CL[k]], 3)
        cc = canon(cl)
        for s, v, nb in items:
            bw.code(*cc[s])
            bw.put(v, nb)
    lc, dc = canon(ll), canon(dl)
    for t in tk:
        if isinstance(t, tuple):
            c, x, nb = lcode(rng, t[0])
            bw.code(*lc[257 + c]); bw.put(x, nb)
            c, x, nb = dcode(t[1])
            bw.code(*dc[c]); bw.put(x, nb)
        else:
            bw.code(*lc[t])
    bw.code(*lc[256])


def stream(rng, size):
    bw, out = Bits(), bytearray()
    nb = rng.choice([1, 1, 2, 3, 6])
    kinds = []
    for i in range(nb):
        k = rng.choice([0, 1, 2, 2, 2])
        kinds.append(k)
        block(rng, bw, out, rng.choice([0, 1, size // nb, rng.randrange(size + 1)]), i == nb - 1, k)
    return bw.done(), bytes(out), tuple(kinds)


def header(rng):
    flg = rng.choice([0, 0, 0, 1, 2, 4, 8, 16, rng.randrange(32)])
    h = bytearray(struct.pack('<BBBBIBB', 31, 139, 8, flg, rng.getrandbits(32), rng.choice([0, 2, 4]), rng.choice([3, 255, 0])))
    if flg & 4:
        n = rng.choice([0, 1, 5, 300, 65535]) if rng.random() < .3 else rng.randrange(20)
        h += struct.pack('<H', n) + bytes(rng.randrange(256) for _ in range(n))
    if flg & 8:
        h += bytes(rng.randrange(1, 256) for _ in range(rng.choice([0, 1, 9, 300]))) + b'\0'
    if flg & 16:
        h += bytes(rng.randrange(1, 256) for _ in range(rng.choice([0, 1, 9, 300]))) + b'\0'
    if flg & 2:
        h += struct.pack('<H', zlib.crc32(bytes(h)) & 0xffff)
    return bytes(h)


def gz(hdr, raw, data):
    return hdr + raw + struct.pack('<II', zlib.crc32(data), len(data) & 0xffffffff)
