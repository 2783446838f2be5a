"""Random aggregate types with random initialisers: braces elided or not,
designators (nested, into anonymous members, GNU ranges), strings, flexible
outer arrays, bit-fields, unions; static, automatic and compound literal.
Every leaf is printed by name, so padding does not matter."""

SCAL = [('char', 8, 1), ('signed char', 8, 1), ('unsigned char', 8, 0), ('short', 16, 1), ('unsigned short', 16, 0),
        ('int', 32, 1), ('unsigned', 32, 0), ('long', 64, 1), ('unsigned long long', 64, 0), ('float', 'f', 1), ('double', 'f', 1),
        ('_Bool', 1, 0), ('int *', 'p', 0), ('const char *', 's', 0), ('enum e', 32, 1), ('int (*)(void)', 'fn', 0)]


class T:
    """kind: scalar/array/struct/union; children: list of (name, T)."""
    def __init__(self, kind, **kw):
        self.kind = kind
        self.bits = None
        self.__dict__.update(kw)

    def nkids(self):
        return self.n if self.kind == 'array' else len(self.kids)

    def kid(self, i):
        return self.elem if self.kind == 'array' else self.kids[i][1]

    def agg(self):
        return self.kind != 'scalar'


class IG:
    def __init__(self, rng):
        self.r = rng
        self.k = 0
        self.decls = []
        self.cl = self.afterchar = False

    def uid(self, p='m'):
        self.k += 1
        return '%s%d' % (p, self.k)

    def typ(self, depth, inunion=False):
        r = self.r
        x = r.random()
        if depth <= 0 or x < .3:
            c = r.choice(SCAL)
            return T('scalar', c=c)
        if x < .55:
            if r.random() < .25:
                return T('array', n=r.randint(1, 7), elem=T('scalar', c=r.choice(SCAL[:3])))
            return T('array', n=r.randint(1, 4), elem=self.typ(depth - 1))
        if x < .92:
            t = T('struct')
        else:
            t = T('union')
        n = r.randint(1, 5)
        t.kids = []
        for _ in range(n):
            if r.random() < .14 and t.kids is not None:
                b = T('scalar', c=r.choice([c for c in SCAL if c[1] in (8, 16, 32, 64, 1) and c[0] not in ('enum e', 'char')]))
                b.bits = r.randint(1, b.c[1])
                t.kids.append((self.uid(), b))
                if r.random() < .15 and t.kind == 'struct':
                    t.kids.append(('', None, r.choice(['int :0;', 'int :3;', 'unsigned :7;'])))
                continue
            s = self.typ(depth - 1)
            anon = s.kind in ('struct', 'union') and r.random() < .35
            s.anon = anon
            t.kids.append((None if anon else self.uid(), s))
        t.pad = [k for k in t.kids]
        t.kids = [k for k in t.kids if k[1] is not None]
        t.tag = self.uid('s')
        self.emit(t)
        return t

    def decl(self, t, name):
        """C declarator text."""
        dims = ''
        while t.kind == 'array':
            dims += '[%s]' % ('' if getattr(t, 'flex', 0) else t.n)
            t = t.elem
        if t.kind == 'scalar':
            if t.c[1] == 'fn':
                return 'int (*%s%s)(void)' % (name, dims)
            base = t.c[0]
        else:
            base = '%s %s' % (t.kind, t.tag)
        return '%s%s%s%s' % (base, '' if base.endswith('*') else ' ', name, dims)

    def emit(self, t):
        o = '%s %s {' % (t.kind, t.tag)
        for k in t.pad:
            if k[1] is None:
                o += ' ' + k[2]
            elif k[0] is None:
                o += ' ' + self.body(k[1]) + ';'
            else:
                o += ' ' + self.decl(k[1], k[0]) + ('' if k[1].bits is None else ':%d' % k[1].bits) + ';'
        self.decls.append(o + ' };')

    def body(self, t):
        """anonymous struct/union definition."""
        o = '%s {' % t.kind
        for k in t.pad:
            if k[1] is None:
                o += ' ' + k[2]
            elif k[0] is None:
                o += ' ' + self.body(k[1]) + ';'
            else:
                o += ' ' + self.decl(k[1], k[0]) + ('' if k[1].bits is None else ':%d' % k[1].bits) + ';'
        return o + ' }'

    # ---- values -----------------------------------------------------------
    def scalar(self, t):
        r = self.r
        k = t.c[1]
        if k == 'f':
            return r.choice(['1.5', '-2.25', '3', '0', "'x'", '0x1p-3', '7.f'] + (['vi', 'vd'] if self.local else []))
        if k == 'p':
            return r.choice(['&X[%d]' % r.randint(0, 3), 'X', 'X + 2', '0', '(int *)8', '&X[3] - 1'])
        if k == 's':
            return r.choice(['"str%d"' % r.randint(0, 9), '0', '"a" "b"', '"xyz" + 1', '&"pqr"[1]', '__func__' if self.local else '"f"'])
        if k == 'fn':
            return r.choice(['f1', '&f2', '0', '*f1'])
        lo = 0
        if t.c[0] == '_Bool':
            return r.choice(['0', '1', '2', '0.5', '!3'])
        b = t.bits or k
        hi = min((1 << (b - 1)) - 1, 1 << 40)
        lo = -hi if t.c[2] else 0
        ch = [str(r.randint(lo, hi)), str(r.randint(0, min(hi, 9))), '0']
        if hi >= 127:
            ch += ["'q'", 'E1', 'sizeof(int)', '(char)65 + 1', '3 > 2 ? 4 : 5']
            if self.local:
                ch += ['vi', 'vi + 1', '(int)vd']
        return r.choice(ch)

    def is_str(self, t):
        return t.kind == 'array' and t.elem.kind == 'scalar' and t.elem.c[1] == 8 and t.elem.bits is None

    def string(self, t):
        n = self.r.randint(0, min(t.n, 6)) if not getattr(t, 'flex', 0) else self.r.randint(0, 5)
        s = ''.join(self.r.choice('abcXYZ01 \\n') for _ in range(n)).replace('\\', '/')
        if self.r.random() < .2:
            return '{"%s"}' % s
        if self.r.random() < .15 and n > 1:
            return '"%s" "%s"' % (s[:1], s[1:])
        return '"%s"' % s

    def value(self, t, depth=0):
        """a value for the whole object t (scalar or braced)."""
        r = self.r
        if t.kind == 'scalar':
            v = self.scalar(t)
            return '{%s}' % v if r.random() < .05 else v
        if self.is_str(t) and r.random() < .5:
            return self.string(t)
        if self.local and self.cl and t.kind in ('struct', 'union') and hasattr(t, 'tag') and not getattr(t, 'anon', 0) and r.random() < .1 and depth < 3:
            return '(%s %s)%s' % (t.kind, t.tag, self.braced(t, depth + 1))
        return self.braced(t, depth)

    def first_leaf_chain(self, t):
        """sub-objects of t starting where t starts: t itself first."""
        out = [t]
        while t.agg() and t.nkids():
            t = t.kid(0)
            out.append(t)
        return out

    def braced(self, t, depth=0):
        """{...} for aggregate t."""
        r = self.r
        flex = getattr(t, 'flex', 0)
        # cursor: stack of (node, next index), outermost first
        cur = [[t, 0]]
        items = []
        um = {}
        n = r.randint(0 if not flex else 1, 7)
        alldes = r.random() < .3
        nodes = r.random() < .3 or self.cl      # compound literals: no overriding
        while len(items) < n:
            # normalise the cursor: pop exhausted levels
            while len(cur) > 1:
                node, i = cur[-1]
                lim = 1 if node.kind == 'union' else node.nkids()
                if i >= lim:
                    cur.pop()
                    cur[-1][1] = cur[-1][1] + 1 if cur[-1][0].kind != 'union' else 1
                else:
                    break
            node, i = cur[-1]
            lim = 1 if node.kind == 'union' else node.nkids()
            end = i >= lim
            if (end or alldes or r.random() < .25) and not nodes:
                # designator
                cur = [[t, 0]]
                des = ''
                node = t
                steps = r.randint(1, 4)
                rng = force = False
                while steps > 0 and node.agg():
                    steps -= 1
                    j = r.randrange(node.nkids())
                    if node.kind == 'array':
                        if r.random() < .08 and not self.norange and j + 1 < node.n:
                            j2 = r.randint(j + 1, node.n - 1)
                            des += '[%d ... %d]' % (j, j2)
                            j = j2
                            steps = 0
                        else:
                            des += '[%d]' % j
                    else:
                        if node.kind == 'union' and um.setdefault((des, id(node)), 0) != j:
                            # into a part of another member than before: known
                            # finding, corpus/c03/union_member.c
                            um[des, id(node)] = j
                            steps, force = 0, True
                        nm = node.kids[j][0]
                        if nm is None:
                            steps += 1          # an anonymous member needs a further step
                        else:
                            des += '.' + nm
                    cur.append([node.kid(j), 0])
                    # cur keeps the parent's index
                    cur[-2][1] = j
                    node = node.kid(j)
                    if steps <= 0 and len(cur) > 1 and cur[-2][0].kind in ('struct', 'union') and cur[-2][0].kids[cur[-2][1]][0] is None:
                        steps = 1
                if cur[-2][0].kind in ('struct', 'union') and cur[-2][0].kids[cur[-2][1]][0] is None:
                    cur = [[t, 0]]              # cannot happen for an aggregate; be safe
                    break
                cur.pop()                       # the designated object is initialised as a whole, or elided
                items.append((des, None))
                des_node = node
                if '...' in des and des_node.agg() and not self.local:
                    v = self.value(des_node, depth + 1)
                    items[-1] = (des, v)
                    cur[-1][1] += 1
                    if cur[-1][0].kind == 'union':
                        cur[-1][1] = 1
                    continue
                if '...' in des and des_node.agg():
                    items.pop()
                    cur = [[t, 0]]
                    self.norange = True
                    alldes = True
                    if len(items) == 0 and n == 1:
                        break
                    n -= 1
                    continue
                self.put(items, cur, des_node, depth, des, force)
                continue
            if end:
                break
            self.put(items, cur, node.kid(i), depth, '')
        s = ', '.join(('%s = %s' % (d, v) if d and r.random() < .97 or '...' in d else '%s %s' % (d, v) if d and d[0] == '[' and d.count('[') == 1 and not '.' in d and 0 else ('%s = %s' % (d, v) if d else v)) for d, v in items)
        return '{%s%s}' % (s, ',' if items and r.random() < .15 else '')

    def put(self, items, cur, node, depth, des, force=False):
        """value for the object at the cursor: braced/whole, or with braces
        elided (descends to a sub-object)."""
        r = self.r
        if des:
            items.pop()
        whole = force or node.kind == 'scalar' or r.random() < (.55 if depth < 4 else .9)
        # a string after an elided part of a char array: gcc and clang agree
        # on something else than the standard says
        afterchar, self.afterchar = self.afterchar and not des, False
        down = False
        while True:
            # gcc and clang disagree about what is left of an earlier string
            # when a designator leads to an elided part of its array
            if des and self.is_str(node) and not down: whole = True
            if down and self.is_str(node) and (des or not afterchar):
                v = self.string(node).strip('{}')
            elif down and self.is_str(node):    # braces would be those of the object around
                cur.append([node, 0])
                node, whole = node.kid(0), False
                continue
            elif whole and self.is_str(node) and afterchar:
                v = self.braced(node, depth + 1)
            elif afterchar and node.kind == 'scalar' and node.c[1] == 's':
                v = '0'
            elif whole:
                v = self.value(node, depth + 1)
            elif node.kind == 'scalar':
                v = self.scalar(node)
            elif self.is_str(node) and r.random() < .5 and not afterchar:
                v = self.string(node).strip('{}')
            else:
                cur.append([node, 0])
                node = node.kid(0)
                down = True
                continue
            items.append((des, v))
            self.afterchar = self.is_str(cur[-1][0])
            cur[-1][1] = 1 if cur[-1][0].kind == 'union' else cur[-1][1] + 1
            return

    # ---- printing -----------------------------------------------------------
    def leaves(self, t, lv, out, limit=60):
        if len(out) > limit:
            return
        if t.kind == 'scalar':
            k = t.c[1]
            if k == 'p':
                out.append('PP(%s);' % lv)
            elif k == 's':
                out.append('PS(%s);' % lv)
            elif k == 'fn':
                out.append('PF(%s);' % lv)
            elif k == 'f':
                out.append('PD(%s);' % lv)
            else:
                out.append('PI(%s);' % lv)
        elif t.kind == 'array':
            for i in range(t.n):
                self.leaves(t.elem, '%s[%d]' % (lv, i), out, limit)
        elif t.kind == 'union':
            # only the largest integer view would be portable: print bytes
            out.append('PB(&%s, sizeof %s);' % (lv, lv))
        else:
            for nm, k in t.kids:
                if nm is not None:
                    self.leaves(k, '%s.%s' % (lv, nm), out, limit)
                elif k.kind == 'struct':
                    self.leaves(k, lv, out, limit)
                else:
                    self.anon_union(k, lv, out)

    def anon_union(self, t, lv, out):
        for nm, k in t.kids:
            if nm is not None and k.kind == 'scalar' and k.c[1] in (8, 16, 32, 64) and k.bits is None and k.c[0] != 'enum e':
                out.append('PI(%s.%s);' % (lv, nm))
                return

    def has_addr(self, t):
        if t.kind == 'scalar':
            return t.c[1] in ('p', 's', 'fn', 'f') or t.c[0] == '_Bool'
        if t.kind == 'array':
            return self.has_addr(t.elem)
        return any(self.has_addr(k[1]) for k in t.kids)

    def has_pad_union(self, t):
        """a union whose bytes are not all determined by any member."""
        if t.kind == 'scalar':
            return False
        if t.kind == 'array':
            return self.has_pad_union(t.elem)
        if t.kind == 'union':
            return True
        return any(self.has_pad_union(k[1]) for k in t.kids)


PRE = r'''#include <stdio.h>
#include <string.h>
#include <stddef.h>
enum e { E0, E1 = 5, E2 };
int X[4]; int f1(void) { return 1; } int f2(void) { return 2; }
static int n_;
#define PI(x) printf("%d:%lld\n", n_++, (long long)(x))
#define PD(x) printf("%d:%.9g\n", n_++, (double)(x))
#define PP(x) printf("%d:%s%ld\n", n_++, (char *)(x) >= (char *)X && (char *)(x) < (char *)(X + 4) ? "X+" : "", (char *)(x) >= (char *)X && (char *)(x) < (char *)(X + 4) ? (long)((char *)(x) - (char *)X) : (long)(x))
#define PS(x) printf("%d:%s\n", n_++, (x) ? (x) : "null")
#define PF(x) printf("%d:%s\n", n_++, (x) == f1 ? "f1" : (x) == f2 ? "f2" : (x) ? "?" : "0")
static void pb(const void *p, size_t n) { const unsigned char *c = p; printf("%d:", n_++); while (n--) printf("%02x", *c++); puts(""); }
#define PB(p, n) pb(p, n)
'''


def safe_union(t, ig):
    """unions: only integers without padding, all members of any size (bytes
    beyond the initialised member are unspecified: keep members equal size)."""
    return True


def program(rng, nobj=6):
    ig = IG(rng)
    objs = []
    tries = 0
    while len(objs) < nobj and tries < 60:
        tries += 1
        mark = len(ig.decls)
        t = ig.typ(rng.randint(1, 4))
        if not t.agg() or _bad_union(t) or _leaves(t) > 60:
            del ig.decls[mark:]
            continue
        if t.kind == 'array' and rng.random() < .5:
            t.flex = 1
        objs.append(t)
    out = []
    glob, stat, auto, prints = [], [], [], []
    for k, t in enumerate(objs):
        ig.norange = False
        ig.local = False
        nm = 'g%d' % k
        ig.cl = False
        init = ig.braced(t)
        cst = rng.choice(['', 'static ', 'const ', 'static const '])
        glob.append('%s%s = %s;' % (cst, ig.decl(t, nm), init))
        prints.append((t, nm))
        ig.local = True
        ig.norange = False
        ig.cl = rng.random() < .3
        auto.append('%s = %s;' % (ig.decl(t, 'l%d' % k), ig.braced(t)))
        prints.append((t, 'l%d' % k))
        if rng.random() < .4:
            ig.local = ig.cl = False
            stat.append('static %s = %s;' % (ig.decl(t, 't%d' % k), ig.braced(t)))
            prints.append((t, 't%d' % k))
        if rng.random() < .4 and t.kind in ('struct', 'union'):
            ig.local = True
            ig.cl = rng.random() < .3
            auto.append('%s %s c%d = (%s %s)%s;' % (t.kind, t.tag, k, t.kind, t.tag, ig.braced(t)))
            prints.append((t, 'c%d' % k))
    o = [PRE] + ig.decls + glob + ['static void dirty(void) { volatile char b[4000]; for (int i = 0; i < 4000; i++) b[i] = 0x5a; }',
         'static void test(int vi, double vd) {'] + ['  ' + x for x in stat + auto]
    for t, nm in prints:
        lo = []
        if getattr(t, 'flex', 0):
            o.append('  PI(sizeof %s / sizeof %s[0]);' % (nm, nm))
            ig.leaves(t.elem, '%s[i]' % nm, lo, 40)
            o.append('  for (unsigned i = 0; i < sizeof %s / sizeof %s[0]; i++) {' % (nm, nm))
            o += ['    ' + x for x in lo] + ['  }']
        else:
            o.append('  PI(sizeof %s);' % nm)
            ig.leaves(t, nm, lo)
            o += ['  ' + x for x in lo]
    o += ['}', 'int main(void) { dirty(); test(11, 2.5); dirty(); test(-3, 40.25); return 0; }']
    return '\n'.join(o) + '\n'


def _leaves(t):
    if t.kind == 'scalar':
        return 1
    if t.kind == 'array':
        return t.n * _leaves(t.elem)
    return sum(_leaves(k[1]) for k in t.kids)


def _size(t):
    return {8: 1, 16: 2, 32: 4, 64: 8}.get(t.c[1]) if t.kind == 'scalar' and t.bits is None and t.c[0] not in ('enum e',) else None


def _bad_union(t):
    """unions are printed bytewise: keep those whose members are same-sized
    integer scalars (or arrays of them covering the same bytes)."""
    if t.kind == 'scalar':
        return False
    if t.kind == 'array':
        return _bad_union(t.elem)
    if t.kind == 'union':
        sz = set()
        for nm, k in t.kids:
            n = 1
            while k.kind == 'array':
                n *= k.n
                k = k.elem
            b = _size(k)
            if b is None:
                return True
            sz.add(n * b)
        return len(sz) != 1
    return any(_bad_union(k[1]) for k in t.kids)
