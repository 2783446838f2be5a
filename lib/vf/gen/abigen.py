"""Two-module programs that pass every kind of argument and result between the modules."""
INT = ['char', 'signed char', 'unsigned char', 'short', 'unsigned short', 'int', 'unsigned', 'long', 'unsigned long', 'long long', 'unsigned long long', '_Bool']
FLT = ['float', 'double', 'long double']
PRE = r'''
#include <stdio.h>
#include <stdarg.h>
#include <stdlib.h>
#include <string.h>
typedef int (*cmp_t)(const void *, const void *);
static unsigned long long mix(unsigned long long x) { x ^= x >> 31; x *= 0x9e3779b97f4a7c15ULL; x ^= x >> 29; x *= 0xbf58476d1ce4e5b9ULL; return x ^ x >> 32; }
'''


class Agg:
    def __init__(self, name, kind, members, attr=''):
        self.name, self.kind, self.members, self.attr = name, kind, members, attr     # members: (type, name, array, bits)

    @property
    def c(self):
        return '%s %s' % (self.kind, self.name)

    def decl(self):
        s = '%s %s {' % (self.kind, self.name)
        for t, n, a, b in self.members:
            s += ' %s %s%s%s;' % (tname(t), n, '[%d]' % a if a else '', ':%d' % b if b else '')
        return s + ' }%s;' % self.attr


SZ = {'char': 1, 'signed char': 1, 'unsigned char': 1, 'short': 2, 'unsigned short': 2, 'int': 4, 'unsigned': 4, '_Bool': 1, 'float': 4, 'long double': 16}


def layout(t):
    """(size, alignment, [(offset, class)])"""
    if not isinstance(t, Agg):
        n = SZ.get(t, 8)
        return n, n, [(0, 'x' if t == 'long double' else 's' if t in FLT else 'i')]
    off = size = 0
    al, out, bit = 1, [], 0
    for mt, mn, a, b in t.members:
        n, m, c = layout(mt)
        if b:
            if t.kind == 'union' or bit == 0 or bit % (n * 8) + b > n * 8:
                if t.kind == 'union': off, bit = 0, 0
                bit = (bit + n * 8 - 1) // (n * 8) * n * 8 if bit % (n * 8) + b > n * 8 or not bit else bit
                if bit < off * 8: bit = (off * 8 + n * 8 - 1) // (n * 8) * (n * 8)
            out.append((bit // 8, 'i'))
            bit += b
            al = max(al, m)
            off = (bit + 7) // 8
            size = max(size, off)
            continue
        bit = 0
        if t.kind == 'union': off = 0
        off = (off + m - 1) // m * m
        al = max(al, m)
        for k in range(a or 1):
            out += [(off + k * n + o, x) for o, x in c]
        off += n * (a or 1)
        size = max(size, off)
    return (size + al - 1) // al * al, al, out


def has_bits(t):
    return isinstance(t, Agg) and any(b or has_bits(m) for m, _, _, b in t.members)


def mixed(t):
    """an aggregate of at most 16 bytes whose eightbytes differ in class, or with a long double and something else"""
    n, m, c = layout(t)
    if has_bits(t) and any(x != 'i' for o, x in c): return n <= 32     # offsets are not exact then
    if n > 16: return False
    if any(x == 'x' for o, x in c): return len(c) > 1
    h = [{x for o, x in c if o // 8 == k} for k in (0, 1)]
    k = ['i' if 'i' in z else 's' if z else '' for z in h]
    return bool(k[1]) and k[0] != k[1]


def tname(t):
    return t.c if isinstance(t, Agg) else t


def ident(t):
    return t.name if isinstance(t, Agg) else t.replace(' ', '_').replace('*', 'P')


def mkpr(t):
    """make/print functions of a type"""
    n, c = ident(t), tname(t)
    if not isinstance(t, Agg):
        if t == '_Bool': e = 'mix(s) & 1'
        elif t in FLT: e = '(%s)((long long)(mix(s) >> 40) - 5000000) / 64' % t
        elif t == 'void *': e = '(void *)(unsigned long)mix(s)'
        else: e = '(%s)mix(s)' % t
        if t in FLT: p = 'printf(" %%.21Lg", (long double)v);'
        elif t == 'void *': p = 'printf(" %p", v);'
        else: p = 'printf(" %%llx", (unsigned long long)v);'
        return ('static %s mk_%s(unsigned long long s) { return %s; }\nstatic void pr_%s(%s v) { %s }\n' % (c, n, e, n, c, p)).replace('%%', '%')
    m, p = '', ''
    ms = t.members if t.kind == 'struct' else t.members[:1]
    for i, (mt, mn, a, b) in enumerate(ms):
        k = 'mk_%s(s * 31 + %d%s)' % (ident(mt), i, ' + j * 7' if a else '')
        q = 'pr_%s(v.%s%s);' % (ident(mt), mn, '[j]' if a else '')
        s = 'v.%s%s = %s;' % (mn, '[j]' if a else '', k)
        if a:
            s = 'for (int j = 0; j < %d; j++) %s' % (a, s)
            q = 'for (int j = 0; j < %d; j++) %s' % (a, q)
        m += ' ' + s
        p += ' ' + q
    return 'static %s mk_%s(unsigned long long s) { %s v; memset(&v, 0, sizeof v);%s return v; }\nstatic void pr_%s(%s v) {%s }\n' % (c, n, c, m, n, c, p)


def aggregate(rng, i, prev):
    kind = 'union' if rng.random() < .2 else 'struct'
    style = rng.randrange(8)
    pools = [INT, ['float'], ['double'], ['float', 'int'], ['double', 'long', 'char'], INT + FLT[:2] + ['void *'], ['char', 'unsigned char', 'short'], FLT + INT]
    pool = pools[style]
    if style == 7 and rng.random() < .5: pool = ['long double']
    n = rng.choice([1, 1, 2, 2, 2, 3, 3, 4, 5, 6])
    ms = []
    for k in range(n):
        r = rng.random()
        if r < .15 and prev:
            t = rng.choice(prev)
        else:
            t = rng.choice(pool)
        a = rng.randrange(1, 5) if rng.random() < .2 else 0
        if pool[0] == 'char' and rng.random() < .4: a = rng.randrange(1, 20)
        b = 0
        if not a and t in INT[4:8] and rng.random() < .12: b = rng.randrange(1, 17)
        ms.append((t, 'm%d' % k, a, b))
    if kind == 'union' and ms[0][3]: ms[0] = ms[0][:3] + (0,)
    g = Agg('%s%d' % ('U' if kind == 'union' else 'S', i), kind, ms)
    return aggregate(rng, i, prev) if mixed(g) else g


def program(rng, nf=10, variadic=True):
    aggs = []
    for i in range(rng.randrange(3, 9)):
        aggs.append(aggregate(rng, i, aggs))
    base = INT + FLT + ['void *']
    out = [PRE]
    for t in base: out.append(mkpr(t))
    for a in aggs:
        out.append(a.decl() + '\n' + mkpr(a))

    def anyt(weight=.5):
        r = rng.random()
        if r < weight and aggs: return rng.choice(aggs)
        return rng.choice(base)
    shared = ''.join(out)
    callee, caller, main = [], [], []
    protos = []
    mode = rng.randrange(4)
    for f in range(nf):
        ret = rng.choice([None] + [anyt(.6) for _ in range(5)])
        rc = tname(ret) if ret else 'void'
        np = rng.choice([0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 12, 18]) if mode else rng.choice([6, 8, 10, 14])
        w = rng.choice([0, .3, .6, 1])
        ps = [anyt(w) for _ in range(np)]
        if rng.random() < .2: ps = [rng.choice(['float', 'double']) if rng.random() < .7 else p for p in ps]
        if rng.random() < .15: ps = [rng.choice(['char', 'short', '_Bool', 'unsigned char']) if rng.random() < .7 else p for p in ps]
        va = variadic and np >= 1 and rng.random() < .35
        vas = []
        if va:
            ps = ps[:rng.randrange(1, min(len(ps), 6) + 1)]
            for _ in range(rng.randrange(0, 12)):
                t = anyt(.35)
                if t in ('char', 'signed char', 'unsigned char', 'short', 'unsigned short', '_Bool'): t = 'int'
                if t == 'float': t = 'double'
                vas.append(t)
        sig = ', '.join('%s a%d' % (tname(p), i) for i, p in enumerate(ps)) + (', ...' if va else '')
        name = 'f%d' % f
        protos.append('%s %s(%s);' % (rc, name, sig or 'void'))
        protos.append('%s (*get_%s(void))(%s);' % (rc, name, ', '.join(tname(p) for p in ps) + (', ...' if va else '') or 'void'))
        body = 'printf("%s:");' % name
        if rng.random() < .3:
            # keep values live around another call
            body += ' volatile int w = %d; w += rec_%s(2);' % (rng.randrange(99), 'c')
        for i, p in enumerate(ps): body += ' pr_%s(a%d);' % (ident(p), i)
        if va:
            def fetch(ap):
                return ''.join(' { %s t = va_arg(%s, %s); pr_%s(t); }' % (tname(t), ap, tname(t), ident(t)) for t in vas)
            k = rng.randrange(4)
            body += ' va_list ap; va_start(ap, a%d);' % (len(ps) - 1)
            if k == 0: body += ' va_list ap2; va_copy(ap2, ap);' + fetch('ap') + ' printf(" again");' + fetch('ap2') + ' va_end(ap2);'
            elif k == 1:
                body += ' vl_%s(ap);' % name
                protos.append('void vl_%s(va_list ap);' % name)
                caller.append('void vl_%s(va_list ap) {%s }' % (name, fetch('ap')))
            elif k == 2:
                body += ' vp_%s(&ap);' % name
                protos.append('void vp_%s(va_list *ap);' % name)
                caller.append('void vp_%s(va_list *ap) {%s }' % (name, fetch('*ap')))
            else: body += fetch('ap')
            body += ' va_end(ap);'
        body += ' printf("\\n"); nk();'
        if ret: body += ' return mk_%s(%d);' % (ident(ret), f * 1000 + 77)
        callee.append('%s %s(%s) { %s }' % (rc, name, sig or 'void', body))
        callee.append('%s (*get_%s(void))(%s) { return %s; }' % (rc, name, ', '.join(tname(p) for p in ps) + (', ...' if va else '') or 'void', name))
        for rep in range(2):
            args = []
            pre = ''
            for i, p in enumerate(ps + vas):
                k = rng.randrange(5)
                s = f * 100 + i * 3 + rep * 50
                e = 'mk_%s(%d)' % (ident(p), s)
                if k == 0:
                    pre += '%s x%d = %s; ' % (tname(p), i, e)
                    e = 'x%d' % i
                elif k == 1:
                    pre += '%s x%d[3]; x%d[idx(1)] = %s; ' % (tname(p), i, i, e)
                    e = 'x%d[idx(1)]' % i
                elif k == 2 and not isinstance(p, Agg) and p in INT:
                    e = '(%s)(%s + idx(0))' % (p, e) if p != '_Bool' else e
                elif k == 3 and isinstance(p, Agg):
                    pre += '%s x%d = %s, *y%d = &x%d; ' % (tname(p), i, e, i, i)
                    e = '*y%d' % i
                elif k == 4 and rng.random() < .3:
                    e = 'idx(1) ? %s : %s' % (e, 'mk_%s(1)' % ident(p))
                args.append(e)
            fn = name
            k = rng.randrange(4)
            if k == 0: fn = 'get_%s()' % name
            elif k == 1: fn = '(*get_%s())' % name
            call = '%s(%s)' % (fn, ', '.join(args))
            if ret:
                k = rng.randrange(4)
                if k == 0 and isinstance(ret, Agg):
                    m = ret.members[0]
                    if not m[2] and not isinstance(m[0], Agg) and not m[3]:
                        main.append('{ %s%s z = %s.%s; printf("  ="); pr_%s(z); printf("\\n"); }' % (pre, m[0], call, m[1], ident(m[0])))
                        continue
                if k == 1: main.append('{ %s%s z; volatile int guard = 5; z = %s; printf("  ="); pr_%s(z); printf(" %%d\\n", guard); }' % (pre, tname(ret), call, ident(ret)))
                elif k == 2: main.append('{ %sprintf("  ="); fflush(stdout); %s z = %s; pr_%s(z); printf("\\n"); }' % (pre, tname(ret), call, ident(ret)))
                else: main.append('{ %s%s(%s); printf("\\n"); }' % (pre, 'pr_%s' % ident(ret), call))
            else:
                main.append('{ %s%s; }' % (pre, call))
            if rng.random() < .15:
                main.append('{ int vla_n = idx(%d) + 3; char vla[vla_n]; memset(vla, 7, vla_n); %s(void)%s; printf(" vla %%d\\n", vla[vla_n - 1]); }' % (rng.randrange(40), pre, call))
    # callbacks through the library and through the other module
    a = rng.choice(aggs)
    callee.append('static int cb_cmp(const void *a, const void *b) { nk(); return *(const int *)a < *(const int *)b ? -1 : *(const int *)a > *(const int *)b; }\ncmp_t get_cmp(void) { return cb_cmp; }')
    protos.append('cmp_t get_cmp(void); %s apply(%s (*cb)(%s, int, double), %s v, int n);' % (a.c, a.c, a.c, a.c))
    callee.append('%s apply(%s (*cb)(%s, int, double), %s v, int n) { double d = n; while (n > 0) { v = cb(v, n, d); n--; d += 0.5; } return v; }' % (a.c, a.c, a.c, a.c))
    caller.append('static %s cb1(%s v, int n, double d) { printf("cb %%d %%g", n, d); pr_%s(v); printf("\\n"); nk(); return mk_%s(n * 9 + (int)d); }' % (a.c, a.c, a.name, a.name))
    main.append('{ int arr[9]; for (int i = 0; i < 9; i++) arr[i] = (int)mk_int(i); qsort(arr, 9, sizeof arr[0], get_cmp()); for (int i = 0; i < 9; i++) printf(" %d", arr[i]); printf("\\n"); }')
    main.append('{ %s z = apply(cb1, mk_%s(5), 4); pr_%s(z); printf("\\n"); }' % (a.c, a.name, a.name))
    hdr = shared + 'int nk(void); int idx(int); int rec_c(int);\n' + '\n'.join(protos) + '\n'
    callee.append(r'''
int idx(int x) { return x; }
int rec_c(int n) { char b[16]; memset(b, n, sizeof b); return n ? rec_c(n - 1) + b[3] : 1; }''')
    nfun = (len(main) + 5) // 6
    fs = []
    for i in range(nfun):
        fs.append('static __attribute__((noinline)) void part%d(int pad) {\n volatile char filler[%d]; filler[0] = pad;\n%s\n}' % (i, rng.randrange(1, 40), '\n'.join(main[i::nfun])))
    caller_t = hdr + '\n'.join(caller) + '\n' + '\n'.join(fs) + '\nint main(void) {\n' + '\n'.join('part%d(%d);' % (i, i) for i in range(nfun)) + '\nreturn 7; }\n'
    return hdr + '\n'.join(callee) + '\n', caller_t


# always built natively: watches alignment and control words at every call
NK = r'''
#include <stdio.h>
#include <stdlib.h>
int nk(void) {
    unsigned long fp = (unsigned long)__builtin_frame_address(0);
    unsigned mx; unsigned short cw; unsigned long fl;
    __asm__ volatile("stmxcsr %0; fnstcw %1; pushfq; popq %2" : "=m"(mx), "=m"(cw), "=r"(fl));
    if (fp & 15) { printf("STACK MISALIGNED\n"); }
    if ((mx & 0xffc0) != 0x1f80) printf("MXCSR %x\n", mx);
    if (cw != 0x37f) printf("X87 CW %x\n", cw);
    if (fl & 0x400) printf("DIRECTION FLAG\n");
    unsigned short tag[14]; __asm__ volatile("fnstenv %0; fldenv %0" : "+m"(tag));
    if (tag[4] != 0xffff) printf("X87 STACK %x\n", tag[4]);
    return 0;
}
'''

# natively built caller that keeps values in every callee-saved register
REGS = r'''
#include <stdio.h>
#include <string.h>
typedef struct { unsigned long in[6], out[6]; unsigned short tag; } regs_t;
static long keep(long (*fn)(long, long), long a, long b, unsigned long *o) {
    long r; 
    register unsigned long x = (unsigned long)fn;
    static unsigned long save[8]; static long aa, bb; static unsigned long ff; static long rr;
    ff = x; aa = a; bb = b;
    __asm__ volatile(
        "movq %%rbp, %0\n\tmovq %%rsp, 8+%0\n\t"
        "movq $0x1111111111111111, %%rbx\n\tmovq $0x2222222222222222, %%rbp\n\t"
        "movq $0x4444444444444444, %%r12\n\tmovq $0x5555555555555555, %%r13\n\tmovq $0x6666666666666666, %%r14\n\tmovq $0x7777777777777777, %%r15\n\t"
        "movq %3, %%rdi\n\tmovq %4, %%rsi\n\t"
        "subq $256, %%rsp\n\tandq $-16, %%rsp\n\tcall *%2\n\tmovq %%rax, %1\n\t"
        "movq %%rbx, 16+%0\n\tmovq %%rbp, 24+%0\n\tmovq %%r12, 32+%0\n\tmovq %%r13, 40+%0\n\tmovq %%r14, 48+%0\n\tmovq %%r15, 56+%0\n\t"
        "movq %0, %%rbp\n\tmovq 8+%0, %%rsp\n\t"
        : "+m"(save), "=m"(rr) : "m"(ff), "m"(aa), "m"(bb)
        : "rax", "rbx", "rcx", "rdx", "rsi", "rdi", "r8", "r9", "r10", "r11", "r12", "r13", "r14", "r15", "memory", "cc",
          "xmm0","xmm1","xmm2","xmm3","xmm4","xmm5","xmm6","xmm7","xmm8","xmm9","xmm10","xmm11","xmm12","xmm13","xmm14","xmm15");
    memcpy(o, save + 2, 6 * sizeof *o);
    unsigned short tag[14]; __asm__ volatile("fnstenv %0; fldenv %0" : "+m"(tag));
    if (tag[4] != 0xffff) printf("x87 stack not empty: %x\n", tag[4]);
    r = rr; return r;
}
extern long (*table[])(long, long); extern int ntable;
int main(void) {
    static const unsigned long want[6] = { 0x1111111111111111, 0x2222222222222222, 0x4444444444444444, 0x5555555555555555, 0x6666666666666666, 0x7777777777777777 };
    for (int i = 0; i < ntable; i++) {
        unsigned long o[6]; long r = keep(table[i], i * 7919 + 3, 17 - i, o);
        printf("%d %lx%s\n", i, r, memcmp(o, want, sizeof o) ? " CALLEE-SAVED REGISTER CHANGED" : "");
    }
    return 0;
}
'''


def junk(rng):
    '''Native code whose unused upper register bits hold rubbish: (native source, cjit source, expected output)'''
    T = [('char', 8, 1), ('signed char', 8, 1), ('unsigned char', 8, 0), ('short', 16, 1), ('unsigned short', 16, 0), ('int', 32, 1), ('unsigned', 32, 0), ('_Bool', 8, 0)]

    def val(t, n, s):
        v = rng.getrandbits(1) if t == '_Bool' else rng.getrandbits(n)
        w = v | rng.getrandbits(64 - n) << n
        return (v - (1 << n) if s and v >> n - 1 else v), w if w < 1 << 63 else w - (1 << 64)
    nat = 'long id(long x) { return x; } double idd(unsigned long x) { double d; __builtin_memcpy(&d, &x, 8); return d; }\n'
    cj = '#include <stdio.h>\nlong id(long); double idd(unsigned long); static int sink(int x) { return x; }\n'
    main, drv, exp, decl = '', '', '', ''
    for i in range(30):
        t, n, s = rng.choice(T)
        v, w = val(t, n, s)
        nat += 'long n%d(long x, long y) { return id(%d) + (x - y); }\n' % (i, w)
        cj += '%s n%d(long x, long y);\n' % (t, i)
        f = rng.randrange(8)
        e = v
        c = 'n%d(7, 7)' % i
        if f == 0: main += 'printf("%%ld\\n", (long)%s);' % c
        elif f == 1: main += '{ %s z = %s; printf("%%ld\\n", (long)z); }' % (t, c)
        elif f == 2: main += 'printf("%%ld\\n", (long)(%s + 5));' % c; e = (v + 5 if n < 32 or t == 'int' and v < 2**31 - 5 else (v + 5) % 2**32 if t == 'unsigned' else (v + 5 + 2**31) % 2**32 - 2**31)
        elif f == 3: main += 'printf("%%ld\\n", %s ? 1L : 0L);' % c; e = 1 if v else 0
        elif f == 4: main += 'if (%s == %d%s) printf("1\\n"); else printf("0\\n");' % (c, v, 'u' if t == 'unsigned' else ''); e = 1
        elif f == 5: main += '{ double d = %s; printf("%%.0f\\n", d); }' % c
        elif f == 6: main += '{ %s a[2]; a[id(1)] = %s; printf("%%ld\\n", (long)a[1]); }' % (t, c)
        else: main += '{ long z = id(3); z = z + (id(0) || %s); printf("%%ld\\n", z); }' % c; e = 3 + (1 if v else 0)
        exp += '%d\n' % e
        if t == 'int' and f == 4 and v == -2**31: main, exp = main[:main.rindex('if (')], exp[:-2]
    for i in range(12):     # a float comes back in the low half of a register
        v = rng.randrange(-5000, 5000)
        import struct
        w = struct.unpack('<I', struct.pack('<f', v / 4))[0] | rng.getrandbits(32) << 32
        nat += 'double m%d(void) { return idd(%dul); }\n' % (i, w)
        cj += 'float m%d(void);\n' % i
        main += 'printf("%%.2f\\n", %s);' % rng.choice(['m%d()' % i, 'm%d() * 1.0' % i, '(double)m%d()' % i])
        exp += '%.2f\n' % (v / 4)
    for i in range(12):     # small parameters, in registers and on the stack, whose upper bits are rubbish
        ps = [rng.choice(T) for _ in range(rng.choice([1, 3, 6, 9, 14]))]
        vs = [val(*p) for p in ps]
        cj += 'void p%d(%s) { %s }\n' % (i, ', '.join('%s a%d' % (p[0], k) for k, p in enumerate(ps)),
              ' '.join('printf("%%ld ", (long)(%s)); ' % ('a%d' % k if rng.random() < .6 else 'a%d + 0L' % k if rng.random() < .5 else '(a%d ? a%d : 0%s)' % (k, k, 'u' if ps[k][0] == 'unsigned' else '')) for k in range(len(ps))) + ' printf("\\n");')
        nat += 'void p%d(%s);\n' % (i, ', '.join(['long'] * len(ps)))
        drv += 'p%d(%s); ' % (i, ', '.join('id(%d)' % v[1] for v in vs))
        exp += ''.join('%d ' % v[0] for v in vs) + '\n'
    nat += 'void drive(void) { %s }\n' % drv
    cj += 'void drive(void);\nint main(void) { %s drive(); return 0; }\n' % main
    return nat.replace('(-9223372036854775808)', '(-9223372036854775807 - 1)'), cj, exp
