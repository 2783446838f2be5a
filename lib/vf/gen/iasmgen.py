"""Programs whose inline assembly has an effect on C values that any compiler must give it."""

HEAD = r'''#include <stdio.h>
#include <stdlib.h>
#include <string.h>
typedef unsigned char u8; typedef unsigned short u16; typedef unsigned int u32; typedef unsigned long u64;
static unsigned long cs = 7;
static void out(const char *n, u64 v) { cs = cs * 31 + v; printf("%s %lx\n", n, v); }
struct st { u8 a; u16 b; u32 c; u64 d; u32 arr[4]; };
static struct st gs = { 1, 2, 3, 4, { 5, 6, 7, 8 } };
static u64 garr[8] = { 9, 8, 7, 6, 5, 4, 3, 2 };
'''
TY = {8: 'u64', 4: 'u32', 2: 'u16', 1: 'u8'}
SU = {8: 'q', 4: 'l', 2: 'w', 1: 'b'}
MO = {8: 'q', 4: 'k', 2: 'w', 1: 'b'}


class IAsm:
    def __init__(self, r):
        self.r = r
        self.top = []
        self.k = 0

    def name(self, p='v'):
        self.k += 1
        return '%s%d' % (p, self.k)

    def lit(self, w):
        r = self.r
        return '0x%x' % (r.choice([0, 1, 127, 128, 255, r.getrandbits(8 * w), r.getrandbits(8 * w), (1 << 8 * w) - 1]) & ((1 << 8 * w) - 1))

    def volat(self):
        return self.r.choice(['asm', '__asm__', 'asm volatile', '__asm__ __volatile__', 'asm'])

    def stmt(self):
        """(declarations and statements of one test, printed names)"""
        r = self.r
        w = r.choice([8, 4, 4, 8, 2, 1])
        t, su = TY[w], SU[w]
        a, b, c = self.name(), self.name(), self.name()
        A = 'asm volatile' if r.random() < .7 else '__asm__ volatile'
        decl = '%s %s = %s, %s = %s, %s = %s;' % (t, a, self.lit(w), b, self.lit(w), c, self.lit(w))
        op = r.choice(['add', 'sub', 'xor', 'and', 'or'])
        k = r.randrange(27)
        L = [decl]
        show = [a, b, c]
        src = r.choice(['"r"(%s)', '"m"(%s)', '"rm"(%s)', '"g"(%s)']) % b
        if k == 0:
            L.append('%s("%s%s %%1, %%0" : "+r"(%s) : %s : "cc");' % (A, op, su, a, src))
        elif k == 1:
            L.append('%s("mov%s %%1, %%0\\n\\t%s%s %%2, %%0" : "=&r"(%s) : %s, "%s"(%s) : "cc");' % (A, su, op, su, a, src, r.choice(['r', 'm', 'g']), c))
        elif k == 2:
            L.append('%s("%s%s %%2, %%0" : "=r"(%s) : "0"(%s), %s);' % (A, op, su, a, c, src))
        elif k == 3:
            L.append('%s("%s%s %%[y], %%[x]" : [x] "+r"(%s) : [y] %s);' % (A, op, su, a, src))
        elif k == 4:
            L.append('%s("%s%s %%1, %%0" : "+m"(%s) : "%s"(%s));' % (A, op, su, a, r.choice(['r', 'ri', 'r']), b))
        elif k == 5:
            n = r.choice([0, 1, 5, 100, 127, -1, -128, 70])
            L.append('%s("%s%s %%1, %%0" : "+%s"(%s) : "%s"(%s%d));' % (A, op, su, r.choice(['r', 'm']), a, r.choice(['i', 'n', 'ri']), '(long)' if w == 8 else '', n if w > 1 or n >= 0 else n & 127))
        elif k == 6:
            reg, l = r.choice([('rax', 'a'), ('rbx', 'b'), ('rcx', 'c'), ('rdx', 'd'), ('rsi', 'S'), ('rdi', 'D')])
            reg2, l2 = r.choice([x for x in [('rax', 'a'), ('rcx', 'c'), ('rdx', 'd'), ('rsi', 'S'), ('rdi', 'D'), ('rbx', 'b')] if x[0] != reg])
            L.append('u64 %sx = %s, %sy = %s;' % (a, a, a, b))
            L.append('%s("lea 5(%%%%%s,%%%%%s,%d), %%%%%s" : "=%s"(%sx) : "%s"(%sx), "%s"(%sy));' % (A, reg, reg2, r.choice([1, 2, 4, 8]), reg, l, a, r.choice([l, '0']), a, l2, a))
            show.append(a + 'x')
            show.append(a + 'y')
        elif k == 7:
            L.append('u32 %sx = %s; u64 %sy = %s;' % (a, self.lit(4), a, self.lit(8)))
            m1, m2 = r.choice([('movzbl %b1, %k0', 0), ('movsbl %b1, %k0', 0), ('movzwl %w1, %k0', 0), ('movswl %w1, %k0', 0), ('movslq %k1, %q0', 1), ('movl %k1, %k0', 0), ('movb %b1, %b0', 2), ('movw %w1, %w0', 2), ('movzbl %h1, %k0', 3), ('movb %h1, %b0', 4), ('addb %b1, %h0', 4)])
            cc = 'Q' if m2 in (3, 4) else 'q'
            L.append('%s("%s" : "%s"(%sy) : "%s"(%sx));' % (A, m1, '+' + ('a' if m2 == 4 else 'r' if m2 != 3 else 'a') if m2 >= 2 else '=r', a, 'b' if cc == 'Q' else 'q', a))
            show.append(a + 'x')
            show.append(('(u32)%sy' if m2 in (0, 3) else '%sy') % a)
        elif k == 8:
            L.append('struct st %ss = gs; %ss.c = (u32)%s; %ss.d = %s; struct st *%sp = &%ss;' % (a, a, a, a, b, a, a))
            acc = r.choice([a + 's.', a + 'p->'])
            f, fw = r.choice([('a', 1), ('b', 2), ('c', 4), ('d', 8), ('arr[2]', 4), ('arr[gs.a]', 4)])
            L.append('%s("%s%s %%1, %%0" : "+m"(%s%s) : "r"((%s)%s));' % (A, op, SU[fw], acc, f, TY[fw], b))
            L.append('%s("not%s %%0" : "+%s"(%s%s));' % (A, SU[fw], r.choice(['r', 'm']), acc, f))
            for f in 'abcd':
                show.append('%ss.%s' % (a, f))
            show.append('%ss.arr[1]' % a)
            show.append('%ss.arr[2]' % a)
        elif k == 9:
            l = self.name('lab')
            e = self.name('end')
            L.append('asm goto("cmp%s %%1, %%0\\n\\tj%s %%l[%s]" : : "r"(%s), "r"(%s) : "cc" : %s);' % (su, r.choice(['a', 'e', 'b', 'g', 'l', 'ne', 'ge', 's', 'be']), l, a, b, l))
            L.append('%s += 3; goto %s; %s: %s ^= 0x55; %s: ;' % (c, e, l, c, e))
        elif k == 10:
            l, m = self.name('lab'), self.name('lab')
            e = self.name('end')
            L.append('asm goto("test%s %%0, %%0\\n\\tj%s %%l1\\n\\tj%s %%l2" : : "r"(%s) : "cc" : %s, %s);' % (su, r.choice(['z', 's']), r.choice(['p', 'ns']), a, l, m))
            L.append('%s += 3; goto %s; %s: %s ^= 0x55; goto %s; %s: %s--; %s: ;' % (c, e, l, c, e, m, c, e))
        elif k == 11:
            # callee-saved registers, named as clobbers, keep the values of the caller
            regs = r.sample(['rbx', 'r12', 'r13', 'r14', 'r15', 'rax', 'rcx', 'rdx', 'rsi', 'rdi', 'r8', 'r9', 'r10', 'r11'], r.choice([1, 2, 4]))
            f = self.name('cb')
            pct = ''.join('mov $%d, %%%%%s\\n\\t' % (r.randrange(9999), x) for x in regs)
            self.top.append('static int %s(const void *p, const void *q) { int d = *(int *)p - *(int *)q; asm volatile("%s" : : : %s, "cc"); return d; }' % (f, pct, ', '.join('"%s"' % x for x in regs)))
            L.append('int %sl[] = { 5, 3, %d, 1, 4, 99, -7 }; qsort(%sl, 7, sizeof(int), %s);' % (a, r.randrange(9), a, f))
            show += ['(u32)%sl[%d]' % (a, i) for i in range(7)]
        elif k == 12:
            reg = r.choice(['rax', 'rbx', 'rcx', 'rdx', 'rsi', 'rdi', 'r8', 'r10', 'r12', 'r15'])
            L.append('u64 %sx = %s, %so; { register u64 %sr asm("%s") = %sx; asm volatile("lea 3(%%%%%s), %%0" : "=r"(%so) : "r"(%sr)); }' % (a, b, a, a, reg, a, reg, a, a))
            show.append(a + 'o')
        elif k == 13:
            L.append('%s("1: dec%s %%0\\n\\tjz 2f\\n\\tadd%s %%1, %%2\\n\\tjmp 1b\\n2:" : "+r"(%s), "+r"(%s), "+r"(%s) : : "cc");' % (A, su, su, a, b, c))
            L[0] = '%s %s = %d, %s = %s, %s = %s;' % (t, a, r.randrange(1, 20), b, self.lit(w), c, self.lit(w))
        elif k == 14:
            L.append('char %sb[32] = "abcdefghijklmnopqrstuvwxyz", %sc[32] = { 0 }; u64 %sn = %d; void *%sp = %sb, *%sq = %sc;' % (a, a, a, r.randrange(26), a, a, a, a))
            L.append('%s("rep movsb" : "+c"(%sn), "+S"(%sp), "+D"(%sq) : : "memory");' % (A, a, a, a))
            show += ['(u64)((char *)%sp - %sb)' % (a, a), '(u8)%sc[3]' % a, '(u64)strlen(%sc)' % a, a + 'n']
        elif k == 15:
            L.append('%s("%s%s %%b1, %%0" : "+%s"(%s) : "%s"((u8)%d) : "cc");' % (A, r.choice(['shl', 'shr', 'sar', 'rol', 'ror']), su, r.choice(['r', 'm']), a, r.choice(['c', 'c', 'i', 'ci']), r.randrange(8 * w)))
        elif k == 16:
            W = r.choice([8, 4])
            L.append('%s %sl = %s, %sh = 0, %sf = %s;' % (TY[W], a, self.lit(W), a, a, self.lit(W)))
            L.append('%s("mul%s %%3" : "=a"(%sl), "=d"(%sh) : "%s"(%sl), "%s"(%sf));' % (A, SU[W], a, a, r.choice(['0', 'a']), a, r.choice(['r', 'm', 'rm']), a))
            show += [a + 'l', a + 'h', a + 'f']
        elif k == 17:
            L.append('u8 %sz; %s("cmp%s %%2, %%1\\n\\tset%s %%0" : "=%s"(%sz) : "r"(%s), "%s"(%s) : "cc");' % (a, A, su, r.choice(['e', 'a', 'b', 'l', 'g', 's', 'o', 'c', 'ae', 'le']), r.choice(['q', 'qm', 'm', 'r']), a, a, r.choice(['r', 'm']), b))
            L[-1] = L[-1].replace('"=r"', '"=&r"').replace('"=q"', '"=&q"').replace('"=qm"', '"=&qm"')
            show.append(a + 'z')
        elif k == 18:
            f = self.name('fn')
            ops = ''.join('%s $%d, %%%s\\n' % (r.choice(['addq', 'xorq', 'subq', 'imulq']), r.randrange(1, 100), 'rax') for _ in range(r.randrange(4)))
            self.top.append('u64 %s(u64, u64);\nasm(".text\\n.globl %s\\n.type %s, @function\\n%s:\\nmovq %%rdi, %%rax\\naddq %%rsi, %%rax\\n%sret\\n");' % (f, f, f, f, ops))
            L.append('u64 %sx = %s(%s, %s);' % (a, f, a, b))
            show.append(a + 'x')
        elif k == 19:
            v = self.name('av')
            self.top.append('extern u32 %s[]; asm(".data\\n.balign 8\\n.globl %s\\n%s: .long %d, 2, %d*3, %s\\n.text\\n");' % (v, v, v, r.randrange(1 << 31), r.randrange(99), r.choice(['-1', '0x7f', '1<<5', '~4'])))
            L.append('%s += (%s)%s[1];' % (a, t, v))
            show += ['%s[%d]' % (v, i) for i in (0, 2, 3)]
        elif k == 20:
            n = r.choice([3, 4, 5])
            vs = [self.name('x') for _ in range(n)]
            L.append('u64 ' + ', '.join('%s = %s' % (v, self.lit(8)) for v in vs) + ';')
            ins = '\\n\\t'.join('%s %%%d, %%%d' % (r.choice(['addq', 'xorq', 'subq', 'movq', 'xchgq']), r.randrange(n), r.randrange(n)) for _ in range(r.randrange(1, 8)))
            L.append('%s("%s" : %s : : "cc");' % (A, ins, ', '.join('"+r"(%s)' % v for v in vs)))
            show += vs
        elif k == 21:
            i = r.randrange(8)
            L.append('u64 *%sp = garr + %d; int %si = %d;' % (a, i, a, r.randrange(8)))
            L.append('%s("%sq %%1, %%0" : "+m"(%s) : "r"((u64)%s));' % (A, op, r.choice(['*%sp' % a, 'garr[%si]' % a, 'garr[%d]' % i, '*(%sp - %d)' % (a, i)]), b))
            show += ['garr[%d]' % j for j in range(8)]
        elif k == 22:
            L.append('double %sd = %s; float %sf = %s; u64 %sbits; u32 %sfb;' % (a, r.choice(['1.5', '-2.25', '1e10']), a, r.choice(['3.5f', '-.125f']), a, a))
            L.append('%s("movq %%1, %%0" : "=r"(%sbits) : "m"(%sd)); %s("movl %%1, %%0" : "=r"(%sfb) : "m"(%sf));' % (A, a, a, A, a, a))
            L.append('%s("fldl %%1\\n\\tfaddl %%1\\n\\tfstpl %%0" : "=m"(%sd) : "m"(%sd));' % (A, a, a))
            show += [a + 'bits', a + 'fb', '(u64)(long)(%sd * 4)' % a]
        elif k == 23:
            L.append('u64 %sx = %s; %s("bswap %%q0\\n\\tpush %%q0\\n\\tpop %%q1\\n\\tnot %%q1" : "+r"(%sx), "=r"(*(u64 *)&garr[%d]) : : "memory");' % (a, self.lit(8), A, a, r.randrange(8)))
            L[-1] = L[-1].replace('"=r"(*', '"=&r"(*')
            show += [a + 'x'] + ['garr[%d]' % j for j in range(8)]
        elif k == 24:
            # an output that is also needed to address the next one
            L.append('u64 %si = %d; u64 %sx = %s;' % (a, r.randrange(8), a, self.lit(8)))
            L.append('%s("movq (%%1,%%2,8), %%0\\n\\taddq %%0, %%2" : "=&r"(%sx), "+r"(*(u64 **)&(u64 *){ garr }), "+r"(%si));' % (A, a, a) if 0 else '%s("movq (%%2,%%1,8), %%0\\n\\taddq %%0, %%1" : "=&r"(%sx), "+r"(%si) : "r"(garr) : "memory");' % (A, a, a))
            show += [a + 'x', a + 'i']
        elif k == 25:
            f = self.name('al')
            L.append('%s(".p2align %d\\n\\tinc%s %%0\\n\\t.align %d\\n\\tinc%s %%0" : "+r"(%s));' % (A, r.randrange(6), su, r.choice([4, 8, 16, 32]), su, a))
        else:
            L.append('%s("mov%s $%%c1, %%0\\n\\tadd%s $%%c2%s, %%0" : "=%s"(%s) : "i"(%d), "i"(%d));' % (A, su, su, r.choice(['', '+1', '*2']), r.choice(['r', 'm']), a, r.randrange(100), r.randrange(40)))
        return L, show

    def func(self, n):
        r = self.r
        o = ['static u64 f%d(u64 p0, u32 p1) {' % n, 'u64 live0 = p0 * 3, live1 = p1 + 9;']
        for _ in range(r.choice([1, 2, 4])):
            L, show = self.stmt()
            wrap = r.random() < .3
            if wrap:
                o.append(r.choice(['if (p1 != 77) {', 'for (int q = 0; q < 2; q++) {', '{']))
                if any('asm goto' in x or x.startswith('lab') for x in L) and 0:
                    pass
            o += L
            for s in show:
                o.append('out("%s", %s);' % (s.replace('"', ''), s))
            if wrap:
                o.append('}')
        if r.random() < .5:
            o.append('{ u64 q; asm("lea 1(%%1,%%2,2), %%0" : "=r"(q) : "r"(p0), "r"((u64)p1)); out("param", q); }' .replace('%%', '%'))
        o.append('return live0 ^ live1; }')
        return o

    def program(self):
        n = self.r.choice([1, 2, 4, 6])
        body = []
        for i in range(n):
            body += self.func(i)
        m = ['int main(void) {']
        for i in range(n):
            for _ in range(2):
                m.append('out("ret", f%d(%d, %d));' % (i, self.r.randrange(999), self.r.randrange(999)))
        m.append('printf("%lx\\n", cs); return 0; }')
        return HEAD + '\n'.join(self.top + body + m) + '\n'
