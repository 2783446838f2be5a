"""Structural validation of ELF64 files: returns a list of problems."""
import struct

RELOCS = set(range(0, 43)) - {27, 28}


def cstr(b, o):
    e = b.find(b'\0', o)
    return None if e < 0 or o > len(b) else b[o:e]


def check(data, loadable=False):
    P = []

    def bad(s):
        if len(P) < 12:
            P.append(s)
    if data[:7] != b'\x7fELF\x02\x01\x01':
        return ['not an ELF64 little-endian file']
    (typ, mach, ver, entry, phoff, shoff, flags, ehsz, phsz, phn, shsz, shn, shstr) = struct.unpack_from('<HHIQQQIHHHHHH', data, 16)
    N = len(data)
    if mach != 62: bad('machine %d' % mach)
    if ver != 1: bad('version')
    if ehsz != 64: bad('e_ehsize %d' % ehsz)
    if shn and (shsz != 64 or shoff + shn * 64 > N): return P + ['section header table outside the file']
    if phn and (phsz != 56 or phoff + phn * 56 > N): return P + ['program header table outside the file']
    if typ == 1 and phn: bad('relocatable file with program headers')
    S = []
    for i in range(shn):
        S.append(dict(zip(('name', 'type', 'flags', 'addr', 'off', 'size', 'link', 'info', 'align', 'ent'), struct.unpack_from('<IIQQQQIIQQ', data, shoff + i * 64))))
    if shn:
        if shstr >= shn or S[shstr]['type'] != 3: return P + ['e_shstrndx']
        st = S[shstr]
        names = data[st['off']:st['off'] + st['size']]
        if not names.endswith(b'\0'): bad('section names not terminated')
        for i, s in enumerate(S):
            n = cstr(names, s['name'])
            if n is None: bad('section %d: name' % i); n = b'?'
            s['n'] = n.decode('latin1')
        if S[0]['type'] or S[0]['size']: bad('section 0 not null')
    spans = []
    for i, s in enumerate(S):
        if i == 0: continue
        n = s['n']
        if s['type'] not in (0, 8):
            if s['off'] + s['size'] > N: bad('%s: beyond the end of the file' % n); continue
            if s['size']: spans.append((s['off'], s['off'] + s['size'], n))
        a = s['align']
        if a & (a - 1): bad('%s: alignment %d' % (n, a))
        elif a > 1 and s['addr'] % a: bad('%s: address %x not aligned to %d' % (n, s['addr'], a))
        if s['link'] >= shn: bad('%s: sh_link' % n)
        s['data'] = data[s['off']:s['off'] + s['size']] if s['type'] not in (0, 8) else b''
    spans.append((0, 64, 'ELF header'))
    if phn: spans.append((phoff, phoff + phn * 56, 'program headers'))
    spans.append((shoff, shoff + shn * 64, 'section headers'))
    spans.sort()
    for (a0, a1, an), (b0, b1, bn) in zip(spans, spans[1:]):
        if b0 < a1: bad('%s and %s overlap in the file' % (an, bn))
    # program headers
    L, ph = [], []
    for i in range(phn):
        pt, pf, po, va, pa, fs, ms, al = struct.unpack_from('<IIQQQQQQ', data, phoff + i * 56)
        ph.append((pt, pf, po, va, fs, ms, al))
        if po + fs > N and fs: bad('segment %d beyond the end of the file' % i)
        if pt == 1:
            if al & (al - 1): bad('segment alignment %x' % al)
            if al > 1 and (po - va) % al: bad('segment %d: offset %x and address %x not congruent' % (i, po, va))
            if fs > ms: bad('segment %d: file size > memory size' % i)
            if L and va < L[-1][0] + L[-1][1]: bad('segments overlap or out of order')
            L.append((va, ms, po, fs, pf))

    def load(va, n=1):
        for a, ms, po, fs, pf in L:
            if a <= va and va + n <= a + ms:
                return (a, ms, po, fs, pf)

    def at(va, n):
        l = load(va, n)
        if not l: return None
        o = va - l[0]
        return data[l[2] + o:l[2] + o + n] if o + n <= l[3] else b'\0' * n
    if typ in (2, 3):
        if not L: bad('no loadable segment')
        for s in S[1:]:
            if s['flags'] & 2 and s['size'] and s['type'] != 0:
                l = load(s['addr'], s['size'])
                if not l: bad('%s: not in a segment' % s['n'])
                else:
                    if s['type'] != 8 and s['addr'] - l[0] + s['size'] > l[3]: bad('%s: in the zero-filled part of a segment' % s['n'])
                    if s['type'] != 8 and s['off'] - l[2] != s['addr'] - l[0]: bad('%s: offset and address differ from its segment' % s['n'])
                    if s['flags'] & 1 and not l[4] & 2: bad('%s: writable, its segment is not' % s['n'])
                    if s['flags'] & 4 and not l[4] & 1: bad('%s: code, its segment is not executable' % s['n'])
        if typ == 2 or entry:
            l = load(entry)
            if not l or not l[4] & 1: bad('entry point %x not in an executable segment' % entry)
        for pt, pf, po, va, fs, ms, al in ph:
            if pt == 3 and data[po:po + fs][-1:] != b'\0': bad('PT_INTERP not terminated')
            if pt in (2, 3, 6) and load(va, ms) is None: bad('segment type %d outside the loaded ones' % pt)
    # symbols and relocations
    for i, s in enumerate(S[1:], 1):
        if s['type'] in (2, 11):
            if s['ent'] != 24 or s['size'] % 24: bad('%s: entry size' % s['n']); continue
            if S[s['link']]['type'] != 3: bad('%s: sh_link is no string table' % s['n']); continue
            strs = S[s['link']]['data']
            cnt = s['size'] // 24
            firstg = cnt
            s['syms'] = []
            for k in range(cnt):
                nm, info, oth, shx, val, sz = struct.unpack_from('<IBBHQQ', s['data'], k * 24)
                name = cstr(strs, nm)
                if name is None: bad('%s[%d]: name outside the string table' % (s['n'], k)); name = b'?'
                bind, ty = info >> 4, info & 15
                s['syms'].append((name, bind, ty, shx, val, sz, oth))
                if bind and k < firstg: firstg = k
                if not bind and k > firstg: bad('%s: local symbol %s after global ones' % (s['n'], name))
                if bind not in (0, 1, 2, 10): bad('%s: binding of %s' % (s['n'], name))
                if shx >= shn and shx < 0xff00: bad('%s: section of %s' % (s['n'], name)); continue
                if 0 < shx < 0xff00 and S[shx]['type'] != 0:
                    t = S[shx]
                    base = 0 if typ == 1 else t['addr']
                    if not base <= val <= base + t['size']: bad('%s: %s at %x outside %s' % (s['n'], name, val, t['n']))
                    elif ty in (1, 2) and val + sz > base + t['size'] and not (s['type'] == 2 and name.startswith(b'_')): bad('%s: %s of %d bytes ends outside %s' % (s['n'], name, sz, t['n']))
                if shx == 0 and not bind and k and ty not in (3, 4) and name: bad('%s: undefined local symbol %s' % (s['n'], name))
            if s['info'] != firstg: bad('%s: sh_info %d, first global is %d' % (s['n'], s['info'], firstg))
            defd = [x[0] for x in s['syms'] if x[1] == 1 and x[3] != 0]
            if len(set(defd)) != len(defd): bad('%s: a global symbol is defined twice: %s' % (s['n'], [x for x in defd if defd.count(x) > 1][:2]))
    for s in S[1:]:
        if s['type'] == 4:
            if s['ent'] != 24 or s['size'] % 24: bad('%s: entry size' % s['n']); continue
            if S[s['link']].get('syms') is None and s['link']: bad('%s: sh_link' % s['n']); continue
            nsym = len(S[s['link']].get('syms') or [0])
            t = S[s['info']] if s['info'] < shn else None
            if typ == 1 and (t is None or not s['info']): bad('%s: sh_info' % s['n']); continue
            for k in range(s['size'] // 24):
                off, info, add = struct.unpack_from('<QQq', s['data'], k * 24)
                rt, sy = info & 0xffffffff, info >> 32
                if sy >= nsym: bad('%s[%d]: symbol %d' % (s['n'], k, sy))
                if rt not in RELOCS: bad('%s[%d]: type %d' % (s['n'], k, rt))
                w = 8 if rt in (1, 6, 7, 8, 24) else 4 if rt else 0
                if rt in (12, 14): w = 2 if rt == 12 else 1
                if typ == 1 and off + w > t['size']: bad('%s[%d]: offset %x outside %s' % (s['n'], k, off, t['n']))
                if typ != 1 and s['flags'] & 2:
                    l = load(off, w or 1)
                    if not l: bad('%s[%d]: address %x not loaded' % (s['n'], k, off))
                    elif not l[4] & 2: bad('%s[%d]: address %x not writable' % (s['n'], k, off))
    # dynamic section
    for s in S[1:]:
        if s['type'] == 6:
            D = {}
            need = []
            for k in range(s['size'] // 16):
                t, v = struct.unpack_from('<qQ', s['data'], k * 16)
                if t == 0: break
                if t == 1: need.append(v)
                elif t in D and t not in (0x6ffffffe,): bad('.dynamic: tag %x twice' % t)
                D[t] = v
            else:
                bad('.dynamic: no DT_NULL')
            if 5 in D and 10 in D:
                strs = at(D[5], D[10])
                if strs is None: bad('DT_STRTAB not loaded'); continue
                for v in need:
                    if not cstr(strs, v): bad('DT_NEEDED name')
                if len({cstr(strs, v) for v in need}) != len(need): bad('a DT_NEEDED twice')
                for t in (14, 15, 29):
                    if t in D and cstr(strs, D[t]) is None: bad('tag %d: name' % t)
            else: bad('.dynamic: no string table')
            for a, z in ((7, 8), (23, 2), (25, 27), (26, 28)):
                if (a in D) != (z in D): bad('.dynamic: tag %d without %d' % (a, z))
                elif a in D and D[z] and load(D[a], D[z]) is None: bad('.dynamic: tag %d range not loaded' % a)
            dsym = [x for x in S if x['type'] == 11]
            if dsym and dsym[0].get('syms') is not None:
                if D.get(6) != dsym[0]['addr']: bad('DT_SYMTAB is not .dynsym')
                if 4 in D:
                    h = at(D[4], 8)
                    if h is None: bad('DT_HASH not loaded'); continue
                    nb, nc = struct.unpack('<II', h)
                    tab = at(D[4], 8 + 4 * (nb + nc))
                    if tab is None or not nb: bad('DT_HASH size'); continue
                    tab = struct.unpack('<%dI' % (nb + nc), tab[8:])
                    syms = dsym[0]['syms']
                    if nc != len(syms): bad('DT_HASH: %d chains, %d symbols' % (nc, len(syms)))
                    for k, x in enumerate(syms):
                        if k and x[1] and x[3]:
                            g = 0
                            for c in x[0]:
                                g = (g << 4) + c
                                t = g & 0xf0000000
                                g = (g ^ (t >> 24)) & ~t & 0xffffffff
                            j, n = tab[g % nb], 0
                            while j and j != k and n <= nc and j < nc:
                                j, n = tab[nb + j], n + 1
                            if j != k: bad('DT_HASH does not find %s' % x[0])
                if 0x6ffffff0 in D:
                    v = at(D[0x6ffffff0], 2 * len(dsym[0]['syms']))
                    if v is None: bad('DT_VERSYM not loaded')
        if s['type'] == 0x6fffffff and False: pass
    return P
