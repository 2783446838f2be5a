"""Random instances of instruction shapes, and random data directives."""
import os

HERE = os.path.dirname(os.path.abspath(__file__))
LOW = 'ax bx cx dx si di bp sp'.split()


def shapes(path):
    out = []
    for l in open(path):
        p = l.split()
        for s in p[1:]:
            out.append((p[0], () if s == '-' else tuple(s.split(','))))
    return out


def r64(r):
    return '%' + r.choice(['r' + x for x in LOW] + ['r%d' % i for i in range(8, 16)])


def r32(r):
    return '%' + r.choice(['e' + x for x in LOW] + ['r%dd' % i for i in range(8, 16)])


def r16(r):
    return '%' + r.choice(LOW + ['r%dw' % i for i in range(8, 16)])


def r8(r):
    return '%' + r.choice(['al', 'bl', 'cl', 'dl', 'sil', 'dil', 'bpl', 'spl'] + ['r%db' % i for i in range(8, 16)])


def num(r, v):
    c = r.randrange(8)
    if c == 0:
        return '0x%x' % v if v >= 0 else '-0x%x' % -v
    if c == 1:
        k = r.randrange(1, 40)
        return '%d%+d' % (v - k, k)
    if c == 2 and v >= 0:
        return '(%d<<1)|%d' % (v >> 1, v & 1)
    if c == 3 and 32 < v < 127 and v not in (39, 92, 34):
        return "'%c'" % v if r.random() < .5 and chr(v).isalnum() else '%d' % v
    if c == 4 and v > 0:
        return '0%o' % v
    if c == 5 and v >= 0:
        return '~%d' % ~v if ~v >= 0 else '~(%d)' % ~v
    if c == 6:
        k = r.randrange(1, 9)
        return '%d*%d+%d' % (k, v // k, v % k)
    return '%d' % v


def imm(r, lo, hi):
    v = r.choice([lo, hi, 0, 1, -1, 127, 128, -128, -129, r.randrange(lo, hi + 1), r.randrange(-200, 200)])
    return num(r, min(hi, max(lo, v)))


def mem(r, plain=False):
    """A memory operand."""
    seg = r.choice(['', '', '', '', '', '', '%fs:', '%gs:', '%es:']) if not plain else ''
    c = r.randrange(12)
    disp = r.choice(['', '', '8', '-8', '127', '128', '-128', '-129', '0x1234', '-0x12345', '4+4', '(3*4)', '0x7fffffff', 'ext1', 'ext0+12', 'ext2-5'])
    if c < 4:
        return '%s%s(%s)' % (seg, disp, r64(r))
    idx = r.choice(['%r' + x for x in LOW if x != 'sp'] + ['%%r%d' % i for i in range(8, 16)])
    if c < 7:
        return '%s%s(%s,%s%s)' % (seg, disp, r64(r), idx, r.choice(['', ',1', ',2', ',4', ',8']))
    if c == 7:
        return '%s%s(,%s,%s)' % (seg, disp, idx, r.choice('1248'))
    if c == 8:
        return '%s%s' % (seg, r.choice(['ext0', 'ext1+8', '0x1234', 'ext2', '16']))
    if c == 9 and not plain:
        i32 = r.choice(['%e' + x for x in LOW if x != 'sp'] + ['%%r%dd' % i for i in range(8, 16)])
        return '%s%s(%s%s)' % (seg, r.choice(['', '4', '-200']), r32(r), r.choice(['', ',%s,%s' % (i32, r.choice('1248'))]))
    return '%s%s(%%rip)' % ('', r.choice(['ext0', 'ext1+4', 'ext2-8', 'dat', 'dat+3', 'fwd', 'fwd-1']))


def operand(r, k, n, mn):
    if k in ('r8', 'r16', 'r32', 'r64'):
        return globals()[k](r)
    if k == 'm':
        return mem(r)
    if k == 'i8':
        return '$' + num(r, r.choice([0, 1, 5, 31, 100, 127, r.randrange(0, 128)]))
    if k == 'i16':
        return '$' + num(r, r.choice([0x80, 0x1234, 0x7fff, r.randrange(0, 0x8000)]))
    if k == 'i32':
        return '$' + r.choice([num(r, 0x12345678), num(r, 0x7fffffff), num(r, r.randrange(0x8000, 0x7fffffff))])
    if k == 'i64':
        return '$' + r.choice(['0x123456789abcdef0', '-0x123456789abcdef', '0x%x' % r.randrange(2**33, 2**63), '0xffffffffffffffff'])
    if k == 'st0':
        return '%st'
    if k == 'st':
        return '%%st(%d)' % r.randrange(8)
    if k == 'mm':
        return '%%mm%d' % r.randrange(8)
    if k == 'xmm':
        return '%%xmm%d' % r.randrange(8)
    if k in ('cl', 'al', 'ax', 'eax', 'rax', 'dx'):
        return '%' + k
    if k == 'seg':
        return '%' + r.choice(['ds', 'es', 'fs', 'gs', 'ss'] if mn.startswith('mov') else ['fs', 'gs'])
    if k == 'cr':
        return '%%cr%d' % r.choice([0, 2, 3, 4])
    if k == 'dr':
        return '%%db%d' % r.choice([0, 1, 2, 3, 6, 7])
    if k == 'lab':
        short = mn.startswith('loop') or mn.endswith('cxz')
        return r.choice(['I%d' % n, 'I%d' % n, '1b'] + ([] if short else ['I%d' % (n + 1), '1f', 'I%d' % max(0, n - r.randrange(60)), 'I%d' % (n + r.randrange(60)), 'ext0', 'ext1+4', 'fwd', 'back']))
    if k == 'im':
        return '*' + mem(r, True)
    if k == 'ir':
        return '*' + r64(r)
    return {'dxm': '(%dx)', 'rsi': '(%rsi)', 'rdi': '(%rdi)'}[k]


PRE = {'lock': ('add', 'adc', 'sub', 'sbb', 'and', 'or', 'xor', 'inc', 'dec', 'not', 'neg', 'xadd', 'cmpxchg', 'xchg', 'bts', 'btr', 'btc'),
       'rep': ('movs', 'stos', 'lods', 'ins', 'outs'), 'repe': ('cmps', 'scas'), 'repne': ('cmps', 'scas')}


def insn(r, sh, n):
    mn, ks = sh
    ops = [operand(r, k, n, mn) for k in ks]
    if ops and ks[0] in ('r8',) and r.random() < .1 and 'm' not in ks and all(k in ('r8', 'i8', 'cl') for k in ks):
        # high bytes go without any REX prefix
        ops = [r.choice(['%ah', '%bh', '%ch', '%dh', '%al', '%dl']) if k == 'r8' else o for k, o in zip(ks, ops)]
    return '%s%s%s' % (mn, ' ' if ops else '', r.choice([', ', ',', ' , ']).join(ops))


# ---------------------------------------------------------------- data files
class Data:
    def __init__(self, r):
        self.r = r
        self.o = []
        self.labels = []          # (name, section)
        self.sec = '.data'
        self.n = 0
        self.consts = []
        self.syms = []

    def lab(self):
        self.n += 1
        l = 'L_%d' % self.n
        self.labels.append((l, self.sec))
        return l

    def expr(self, depth=0):
        """An expression that is a constant when assembled."""
        r = self.r
        c = r.randrange(11)
        if depth > 3 or c < 3:
            return r.choice(['%d' % r.randrange(300), '0x%x' % r.randrange(1 << 16), "'%c'" % r.choice('aZ0k'), '0%o' % r.randrange(512), '%d' % r.randrange(10)])
        if c < 6:
            return '(%s %s %s)' % (self.expr(depth + 1), r.choice(['+', '-', '*', '&', '|', '^']), self.expr(depth + 1))
        if c == 6:
            return '(%s %s %d)' % (self.expr(depth + 1), r.choice(['<<', '>>']), r.randrange(6))
        if c == 7:
            return '%s%s' % (r.choice('-~'), '(%s)' % self.expr(depth + 1))
        if c == 8:
            return '(%s / %d)' % (self.expr(depth + 1), r.randrange(1, 20))
        if c == 9 and self.consts:
            return r.choice(self.consts)
        same = [l for l, s in self.labels if s == self.sec]
        if len(same) > 1:
            a, b = r.sample(same, 2)
            return '(%s - %s)' % (a, b)
        return '%d + %d * %d' % (r.randrange(50), r.randrange(50), r.randrange(50))

    def string(self):
        r = self.r
        return '"%s"' % ''.join(r.choice(['a', 'Q', ' ', '0', '%', '\\n', '\\t', '\\\\', '\\"', '\\101', '\\7', '\\r', '#', ';', '/*', '$', "'"]) for _ in range(r.randrange(0, 12)))

    def item(self, depth=0):
        r = self.r
        c = r.randrange(20)
        if c < 5:
            d = r.choice(['.byte', '.word', '.short', '.long', '.int', '.quad'])
            w = {'.byte': 255, '.word': 65535, '.short': 65535}.get(d, 0xffffffff)
            self.o.append('%s %s' % (d, ', '.join('(%s) & 0x%x' % (self.expr(), w) for _ in range(r.choice([1, 1, 2, 5])))))
        elif c == 5:
            self.o.append('%s %s' % (r.choice(['.ascii', '.asciz', '.string']), ', '.join(self.string() for _ in range(r.choice([1, 1, 3])))))
        elif c == 6:
            self.o.append(r.choice(['.skip %d', '.space %d', '.skip %d, 0x5a', '.space %d, 7', '.fill %d', '.fill %d, 1, 3', '.fill %d, 4, 0x1234567', '.fill %d, 2', '.fill %d, 8, 0x1020304']) % r.randrange(9))
        elif c == 7:
            # in code the padding is whatever does nothing
            self.o.append(r.choice((['.align %d', '.balign %d'] if self.sec not in ('.text', '.tx2') else []) + ['.align %d, 0xcc', '.balign %d, 1']) % r.choice([0, 1, 2, 4, 8, 16, 32]))
        elif c == 8:
            self.o.append(r.choice((['.p2align %d'] if self.sec not in ('.text', '.tx2') else []) + ['.p2align %d, 0x11']) % r.randrange(6))
        elif c == 9 and not depth:
            n = 'K_%d' % self.n
            self.n += 1
            self.o.append(r.choice(['.set %s, %s', '%s = %s']) % (n, '(%s) & 0xffff' % r.choice(['%d + 3' % r.randrange(5000), '0x%x << 2' % r.randrange(999), '%d * 3 - 1' % r.randrange(1, 99)])))
            self.consts.append(n)
        elif c == 10 and depth < 2:
            self.o.append('.rept %d' % r.randrange(5))
            for _ in range(r.choice([1, 2])):
                self.plain()
            self.o.append('.endr')
        elif c in (11, 12) and not depth:
            self.o.append('%s:' % self.lab())
        elif c == 13 and not depth:
            l = self.lab()
            self.o.append(r.choice(['.globl %s', '.global %s', '.weak %s', '.globl %s\n.hidden %s']).replace('%s', l))
            self.o.append('%s:' % l)
            if r.random() < .5:
                self.o.append('.type %s, %s' % (l, r.choice(['@function', '@function', '%function'])))
                self.o.append('.quad 5')
                self.o.append('.size %s, %s' % (l, r.choice(['8', '. - %s' % l, '4+4'])))
        elif c == 14 and self.labels:
            l = r.choice(self.labels)[0]
            self.o.append(r.choice(['.quad %s', '.quad %s + 4', '.quad %s - 3', '.long %s', '.long %s - .', '.quad ext0', '.quad ext1 + 40', '.long ext0 - 8', '.long ext1 - .']).replace('%s', l))
        elif c == 15:
            self.o.append(r.choice(['1: .byte 3\n.long 1b - .', '.long 1f - .\n1: .byte 9', '1: .word 5\n2: .byte 1, 2b - 1b', '3: .skip 3\n3: .byte 3b - 3b + 1']) if not depth else '.byte 6')
        elif c == 16 and not depth:
            s = r.choice(['.text', '.data', '.section .mine,"aw",@progbits', '.section .ro2,"a"', '.section .tx2,"ax",@progbits', '.section .mine', '.data'])
            self.o.append(s)
            self.sec = s.split()[-1].split(',')[0]
            if s == '.section .mine':
                self.o[-1] = '.section .mine,"aw",@progbits'
        elif c == 17 and not depth:
            s, old = r.choice(['.mine', '.ro2', '.data']), self.sec
            self.o.append('.pushsection %s%s' % (s, {'.mine': ',"aw",@progbits', '.ro2': ',"a"'}.get(s, '')))
            self.sec = s
            for _ in range(r.choice([1, 3])):
                self.item(1)
            self.o.append(r.choice(['.popsection', '.popsection']))
            self.sec = old
        elif c == 18:
            self.o.append(r.choice(['# note', '/* note\n over lines */', '.byte 1; .byte 2', '   .byte 4 /* c */, 5', '.file "x.c"', '.ident "me"', '.byte 7 # tail', '']))
        else:
            self.plain()

    def plain(self):
        r = self.r
        self.o.append(r.choice(['.byte %d', '.word %d', '.long %d, %d', '.quad %d', '.asciz "n%d"', '.skip %d']).replace('%d', str(r.randrange(60))))

    def text(self):
        self.o.append('.data')
        for _ in range(self.r.choice([10, 40, 100])):
            self.item()
        if self.r.random() < .3:
            self.o.append('.data')
            self.o.append('.org . + %d%s' % (self.r.randrange(40), self.r.choice(['', ''])) if self.r.random() < .5 else '.skip 3')
        if self.r.random() < .4:
            self.o.append('.bss\nB_1: .skip %d\n.balign 16\nB_2: .space %d\n.globl B_2' % (self.r.randrange(99), self.r.randrange(5000)))
        return '\n'.join(self.o) + '\n'
