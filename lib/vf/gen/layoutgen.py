"""Random struct/union types; the program prints size, alignment, offsets and,
for every bit-field and scalar member, the byte image of the object after
storing all-ones into zeroed storage and zero into all-ones storage, the value
read back for several stored values, and compound assignments on members."""

INTS = [('char', 8), ('signed char', 8), ('unsigned char', 8), ('short', 16), ('unsigned short', 16), ('int', 32), ('unsigned', 32),
        ('long', 64), ('unsigned long', 64), ('long long', 64), ('unsigned long long', 64), ('_Bool', 1)]
OTHER = ['float', 'double', 'long double', 'void *', 'enum e', 'char *', 'int (*)[3]']


class LG:
    def __init__(self, rng, features):
        self.r = rng
        self.f = features
        self.k = 0
        self.decl = []

    def uid(self, p):
        self.k += 1
        return '%s%d' % (p, self.k)

    def body(self, depth, members, prefix, kind):
        r = self.r
        o = ''
        n = r.randint(1, 6)
        bfheavy = r.random() < .45
        for i in range(n):
            x = r.random()
            if x < (.7 if bfheavy else .15):
                t, w = r.choice(INTS)
                bits = r.randint(1, w) if r.random() < .8 else w
                if bits == 64 and ('attr' in self.f or 'pack' in self.f):
                    bits = 63       # not implemented when packed (rejected)
                if r.random() < .12:
                    o += ' %s :%d;' % (t, r.choice([0, 0, bits]) if t != '_Bool' else 0)
                    continue
                nm = self.uid('b')
                at = ''
                if 'attr' in self.f and r.random() < .05:
                    at = ' __attribute__((packed))'
                o += ' %s %s:%d%s;' % (r.choice(['', '', 'const ', 'volatile '])[:0] + t, nm, bits, at)
                members.append((prefix + nm, 'b', t, bits))
            elif x < .85 or depth <= 0:
                nm = self.uid('m')
                dims = ''.join('[%d]' % r.randint(1, 3) for _ in range(r.choice([0, 0, 0, 1, 1, 2])))
                at = ''
                if 'attr' in self.f and r.random() < .2:
                    al = r.choice([1, 2, 4, 8, 16, 32])
                    at = ' __attribute__((%s))' % r.choice(['packed', 'aligned(%d)' % al, 'aligned', 'packed, aligned(2)'])
                elif 'alignas' in self.f and r.random() < .05:
                    o += ' _Alignas(%d)' % r.choice([16, 32])
                if r.random() < .75:
                    t = r.choice([x for x in INTS if 'aligned(' not in at or 'packed' in at or x[1] <= al * 8])[0]
                    o += ' %s %s%s%s;' % (t, nm, dims, at)
                    members.append((prefix + nm, 'i' if not dims else 'a', t, 0))
                else:
                    t = r.choice(OTHER)
                    if 'aligned(' in at and 'packed' not in at and al < 16:
                        at = ''
                    if '(*)' in t:
                        o += ' %s%s;' % (t.replace('(*)', '(*%s%s)' % (nm, dims)), at)
                    else:
                        o += ' %s %s%s%s;' % (t, nm, dims, at)
                    members.append((prefix + nm, 'a', t, 0))
            else:
                k = r.choice(['struct', 'struct', 'union'])
                if r.random() < .4:
                    o += ' %s%s {%s };' % (k, self.attr(True), self.body(depth - 1, members, prefix, k))
                elif r.random() < .6:
                    nm = self.uid('n')
                    o += ' %s%s {%s } %s;' % (k, self.attr(True), self.body(depth - 1, members, prefix + nm + '.', k), nm)
                    members.append((prefix + nm, 'a', None, 0))
                else:
                    nm = self.uid('n')
                    at = ''
                    if 'attr' in self.f and r.random() < .15:
                        at = ' __attribute__((aligned(%d)))' % 32
                    o += ' %s {%s } %s[%d]%s;' % (k, self.body(depth - 1, members, prefix + nm + '[1].', k), nm, r.randint(2, 3), at)
                    members.append((prefix + nm, 'a', None, 0))
        if kind == 'struct' and prefix == '' and depth >= 0 and self.top and r.random() < .08:
            self.top = False
            o += ' int fam[];'
        return o or ' int %s;' % self.uid('z')

    def attr(self, nested=False):
        r = self.r
        if 'attr' not in self.f or r.random() > (.1 if nested else .25):
            return ''
        return ' __attribute__((%s))' % r.choice(['packed', 'packed', 'aligned(%d)' % r.choice([2, 4, 8, 16, 32]), 'packed, aligned(4)', 'packed, aligned(%d)' % r.choice([1, 2, 8])])

    def one(self):
        r = self.r
        members = []
        kind = 'struct' if r.random() < .85 else 'union'
        tag = self.uid('S')
        at = self.attr()
        self.top = False
        body = self.body(r.choice([0, 1, 1, 2]), members, '', kind)
        if kind == 'struct' and r.random() < .07 and members and not body.rstrip().endswith('fam[];'):
            body += ' int fam[];' if r.random() < .5 else ' char fam[0];'
            members.append(('fam', 'f', None, 0))
        if not members:
            members.append(('mm', 'i', 'short', 0))
            body += ' short mm;'
        d = '%s%s %s {%s }%s;' % (kind, at if r.random() < .5 else '', tag, body, '')
        if at and at not in d:
            d = '%s %s {%s }%s;' % (kind, tag, body, at)
        if 'pack' in self.f and r.random() < .2:
            n = r.choice([1, 2, 4, 8])
            d = r.choice(['#pragma pack(%d)\n%s\n#pragma pack()' % (n, d), '#pragma pack(push, %d)\n%s\n#pragma pack(pop)' % (n, d),
                          '#pragma pack(push)\n#pragma pack(%d)\n%s\n#pragma pack(pop)' % (n, d)])
        out = []
        ty = '%s %s' % (kind, tag)
        out.append('  V(sizeof(%s)); V(_Alignof(%s)); V(sizeof(%s[3])); V(sizeof(struct { char c; %s x; }));' % (ty, ty, ty, ty))
        o = 'o' + tag
        out.append('  static %s %s, *p%s = &%s; %s a%s; (void)p%s;' % (ty, o, tag, o, ty, tag, tag))
        for m, k, t, bits in members:
            if k != 'b':
                if k != 'f':
                    out.append('  V(sizeof %s.%s);' % (o, m))
                out.append('  V(offsetof(%s, %s)); V((char *)&%s.%s - (char *)&%s);' % (ty, m, o, m, o))
            if k in 'bi':
                w = bits or dict(INTS)[t]
                vals = [0, 1, -1, (1 << (w - 1)) - 1, -(1 << (w - 1)), r.getrandbits(64) - (1 << 63), r.getrandbits(w)]
                acc = r.choice(['%s.%s' % (o, m), 'p%s->%s' % (tag, m), 'a%s.%s' % (tag, m)])
                tgt = 'a' + tag if acc[0] == 'a' else o
                out.append('  Z(%s); %s = -1; I(%s); F(%s); %s = 0; I(%s); R(%s); %s = %s; I(%s); W(%s);' % (
                    tgt, acc, tgt, tgt, acc, tgt, tgt, acc, lit(r.choice(vals)), tgt, acc))
                out.append('  %s = %s; W(%s); W(%s = %s); %s = v0; W(%s); W(%s = (%s)v1);' % (acc, lit(r.choice(vals)), acc, acc, lit(r.choice(vals)), acc, acc, acc, r.choice(['int', 'long', 'short', 'unsigned'])))
                if t != '_Bool':
                    out.append('  W(%s += 3); W(++%s); W(%s--); W(%s ^= v0); W(%s |= v1 & 5); W(%s == (%s = 1)); W(%s != 0); W(-%s%s); I(%s);' % (acc, acc, acc, acc, acc, '1', acc, acc, '(long long)' if dict(INTS)[t] == 64 else '', acc, tgt))
                    if dict(INTS)[t] < 64 or not bits:
                        out.append('  W(%s - 2 < 0); W(~%s); W((%s << 1) < 0); W(%s * -1 / 2);' % (acc, acc, acc + ' & 0xff' if 0 else '(%s & 0x7f)' % acc, acc))
                else:
                    out.append('  W(%s |= 1); W(%s &= v0); W(!%s); W(%s ? 3 : 4);' % (acc, acc, acc, acc))
        # whole-object copies keep every member
        ck = ' '.join('W(a%s.%s); W(t_[1].%s);' % (tag, m, m) for m, k, t, bits in members if k in 'bi' and t != '_Bool')
        st = ' '.join('%s.%s = rn() & 0x7fffffff;' % (o, m) for m, k, t, bits in members if k in 'bi')
        if ck:
            out.append('  Z(%s); Z(a%s); %s a%s = %s; { %s t_[2]; t_[1] = *p%s; Z(%s); %s *p%s = t_[1]; V(sizeof(*p%s)); }' % (o, tag, st, tag, o, ty, tag, o, ck, tag, tag))
        return d, out


def lit(v):
    if v < -(1 << 63) or v >= 1 << 64:
        v &= (1 << 64) - 1
    if v == -(1 << 63):
        return '(-9223372036854775807LL - 1)'
    return '%dLL' % v if v < 1 << 63 else '%dULL' % v


PRE = r'''#include <stdio.h>
#include <string.h>
#include <stddef.h>
enum e { E0, E1 = 1000 };
static int n_;
static unsigned long long seed_ = 88172645463325252ull;
static unsigned long long rn(void) { seed_ ^= seed_ << 13; seed_ ^= seed_ >> 7; seed_ ^= seed_ << 17; return seed_; }
#define V(x) printf("%d:%lu\n", n_++, (unsigned long)(x))
#define W(x) do { long long w_ = (x); printf("%d=%lld\n", n_++, w_); } while (0)
#define Z(o) memset(&o, 0, sizeof o)
#define F(o) memset(&o, 0xff, sizeof o)
#define R(o) do { unsigned char *q_ = (void *)&o; for (unsigned i_ = 0; i_ < sizeof o; i_++) q_[i_] = rn(); } while (0)
#define I(o) do { unsigned char *q_ = (void *)&o; printf("%d#", n_++); for (unsigned i_ = 0; i_ < sizeof o; i_++) printf("%02x", q_[i_]); puts(""); } while (0)
#define I2(a, b) printf("%d#%d\n", n_++, memcmp(&a, &b, sizeof a) == 0)
'''


def program(rng, n=4, features=('attr', 'pack')):
    g = LG(rng, features)
    decls, body = [], []
    for _ in range(n):
        d, o = g.one()
        decls.append(d)
        body += ['  {'] + o + ['  }']
    return PRE + '\n'.join(decls) + '\nstatic void test(int v0, long v1) {\n' + '\n'.join(body) + '\n}\nint main(void) { test(5, -7); test(-100000, 0x7fffffffffL); return 0; }\n'
