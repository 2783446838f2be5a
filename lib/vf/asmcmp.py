"""Canonical disassembly of assembled files: what every labelled instruction does, independent of encoding lengths and of the form of relocations."""
import bisect, os, re, struct, subprocess


class Obj:
    def __init__(self, path):
        self.b = b = open(path, 'rb').read()
        shoff, = struct.unpack_from('<Q', b, 0x28)
        n, strndx = struct.unpack_from('<HH', b, 0x3c)
        self.sec = []
        for i in range(n):
            self.sec.append(list(struct.unpack_from('<IIQQQQIIQQ', b, shoff + 64 * i)))
        so = self.sec[strndx][4]
        self.name = [self.str(so + s[0]) for s in self.sec]
        self.sym = []
        for s in self.sec:
            if s[1] == 2:
                st = self.sec[s[6]][4]
                for o in range(s[4], s[4] + s[5], 24):
                    nm, info, oth, shn, val, size = struct.unpack_from('<IBBHQQ', b, o)
                    self.sym.append((self.str(st + nm), info, oth, shn, val, size))

    def str(self, o):
        return self.b[o:self.b.index(b'\0', o)].decode('latin1')

    def data(self, name):
        i = self.name.index(name)
        s = self.sec[i]
        return bytearray(self.b[s[4]:s[4] + s[5]]) if s[1] != 8 else bytearray(s[5])

    def relocs(self, name):
        """(offset, type, symbol index, addend)"""
        if name not in self.name:
            return []
        i = self.name.index(name)
        out = []
        for s in self.sec:
            if s[1] == 4 and s[7] == i:
                for o in range(s[4], s[4] + s[5], 24):
                    off, info, add = struct.unpack_from('<QQq', self.b, o)
                    out.append((off, info & 0xffffffff, info >> 32, add))
        return sorted(out)


SIZE = {1: 8, 2: 4, 4: 4, 9: 4, 10: 4, 11: 4, 12: 2, 13: 2, 14: 1, 15: 1, 24: 8, 41: 4, 42: 4}
KIND = {1: 'abs', 10: 'abs', 11: 'abs', 12: 'abs', 14: 'abs', 2: 'pc', 4: 'pc', 13: 'pc', 15: 'pc', 24: 'pc'}


def disasm(data, start=0):
    p = '/dev/shm/vf-asm.%d.%d' % (os.getpid(), id(data))
    with open(p, 'wb') as f:
        f.write(data)
    try:
        t = subprocess.run(['objdump', '-D', '-b', 'binary', '-m', 'i386:x86-64', '-w', '--no-show-raw-insn', p], capture_output=True, text=True).stdout
    finally:
        os.unlink(p)
    return [(int(m.group(1), 16), m.group(2).strip()) for m in re.finditer(r'^\s*([0-9a-f]+):\t(.*)$', t, re.M)]


def place(o, sec, syms):
    """Map from (section, offset) to a label and a distance."""
    i = o.name.index(sec)
    lab = sorted((s[4], s[0]) for s in o.sym if s[3] == i and s[0] in syms)
    addr = [a for a, n in lab]

    def f(off):
        k = bisect.bisect_right(addr, off) - 1
        # of several labels at one place the first name
        if k < 0:
            return sec, off
        while k and addr[k - 1] == addr[k]:
            k -= 1
        return lab[k][1], off - addr[k]
    return f


def canon(path, labels, ids, sec='.text'):
    """{label: [instruction text]} for every label; ids gives every symbol a number the operands are shown with."""
    o = Obj(path)
    d = o.data(sec)
    want = set(labels) | set(ids)
    here = {n: v for n, info, oth, shn, v, size in o.sym if shn < len(o.name) and o.name[shn] == sec and n in want}
    pl = {n: place(o, n, want) for n in o.name if n in ('.text', '.data')}
    starts = [a for a, t in disasm(d)]
    cv = []

    def val(si, add):
        nm, info, oth, shn, v, size = o.sym[si]
        if shn and shn < 0xff00 and o.name[shn] in pl:
            l, off = pl[o.name[shn]](v + add)
            return ids.get(l, 0x70000000) + off
        return ids.get(nm, 0x71000000) + add

    rel = {}
    for off, ty, si, add in o.relocs(sec):
        n = SIZE.get(ty, 4)
        raw = int.from_bytes(d[off:off + n], 'little', signed=True)
        k = bisect.bisect_right(starts, off)
        end = starts[k] if k < len(starts) else len(d)
        if KIND.get(ty) == 'pc':
            # symbols of this section are found with the distance from the end of the instruction
            v = val(si, add + raw + end - off) - end
        else:
            v = val(si, add + raw)
        # the relocation's kind decides which values fit; the number shows which symbol
        d[off:off + n] = (v & ((1 << 8 * n) - 1)).to_bytes(n, 'little')
        rel[starts[k - 1]] = ('' if KIND.get(ty) == 'pc' else KIND.get(ty, 'type %d' % ty)) + (' %d bytes' % n if ty in (1, 24, 12, 13, 14, 15) else ' signed' if ty == 11 else ' unsigned' if ty == 10 else '')
    out = {}
    ins = disasm(d)
    at = {a: i for i, (a, t) in enumerate(ins)}
    f = pl[sec]

    def target(m):
        v = int(m.group(2), 16)
        if v < len(d) + 1:
            l, off = f(v)
            if l in ids:
                v = ids[l] + off
        return '%s0x%x' % (m.group(1), v & 0xffffffff)
    order = sorted(set(here.values()))
    for n in labels:
        a = here.get(n)
        if a is None:
            continue
        k = bisect.bisect_right(order, a)
        end = order[k] if k < len(order) else len(d)
        r = []
        i = at.get(a)
        if i is None:
            r.append('misaligned')
        while i is not None and i < len(ins) and ins[i][0] < end:
            t = re.sub(r'\s+', ' ', ins[i][1])
            if '(%rip)' in t:
                t = re.sub(r'-?(0x[0-9a-f]+)?\(%rip\)', '(%rip)', t)
                t = re.sub(r'(# )(0x[0-9a-f]+)', target, t)
            elif re.match(r'(bnd |notrack )?(j|call|loop)[a-z]*(,p[nt])? 0x', t):
                t = re.sub(r'( )(0x[0-9a-f]+)$', target, t)
            t = re.sub(r'\$1,', '$0x1,', t)
            t = 'nop' if t == 'rex.W nop' else t
            if re.match(r'(\w+ )*lea ', t):
                # an address cut to the size of the destination
                r.append(t)
                i += 1
                continue
            if ins[i][0] in rel:
                t += ' {%s}' % rel[ins[i][0]] if rel[ins[i][0]] else ''
            r.append(t)
            i += 1
        out[n] = r
    return out


def content(path, prefix=('L_', 'K_', 'B_', 'ext')):
    """Sections by name with their bytes, what relocations put into them, and the symbols."""
    o = Obj(path)
    out = {}
    for i, n in enumerate(o.name):
        ty, fl, size = o.sec[i][1], o.sec[i][2], o.sec[i][5]
        if ty not in (1, 8) or not fl & 2 or n == '.eh_frame':
            continue
        d = o.data(n)
        rel = []
        for off, t, si, add in o.relocs(n):
            nm, info, oth, shn, v, sz = o.sym[si]
            k = SIZE.get(t, 4)
            add += int.from_bytes(d[off:off + k], 'little', signed=True)
            d[off:off + k] = bytes(k)
            # a reference to a place in this file is the same by any symbol, unless another file may replace it
            if shn and shn < 0xff00 and info >> 4 != 2:
                to = (o.name[shn], v + add)
            else:
                to = (nm, add)
            if KIND.get(t) == 'pc' and to[0] == n:
                # within a section the linker only subtracts
                d[off:off + k] = ((to[1] - off) & ((1 << 8 * k) - 1)).to_bytes(k, 'little')
                continue
            rel.append((off, KIND.get(t, t), k, to))
        if size or rel:
            out['section ' + n] = (fl & 7, ty == 8, size, bytes(d) if ty != 8 else b'')
            if rel:
                out['relocations of ' + n] = rel
    for nm, info, oth, shn, v, size in o.sym:
        if nm.startswith(prefix):
            out['symbol ' + nm] = (o.name[shn] if shn and shn < 0xff00 else shn, v, 'LOCAL GLOBAL WEAK'.split()[info >> 4] if shn else info >> 4, info & 15 if shn else 0, oth & 3)
    return out
