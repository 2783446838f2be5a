"""Module graphs: a small pool of names, each module gives every name a role
(reference, weak reference, strong/weak/tentative/internal definition, alias,
inline...); modules are linked directly, sit in archives or in a shared object."""

FROLES = ['ref', 'ref', 'ref', 'ref', 'def', 'wdef', 'static', 'wref', 'alias', 'walias', 'sinline', 'static_fwd', 'blockref', 'ptrref', 'taken', 'staticafter', 'asmdef', 'asmweak', 'hdef', 'kr']
DROLES = ['ref', 'ref', 'ref', 'ref', 'def', 'wdef', 'static', 'wref', 'tent', 'tent', 'tent', 'extinit', 'static_ext', 'statictent', 'blockref', 'blockstatic', 'dalias', 'const', 'tent2', 'zero', 'addr', 'hdef', 'asmdef', 'sect', 'asmsect']


STRONG = ('def', 'alias', 'extinit', 'dalias', 'const', 'zero', 'asmdef', 'hdef', 'sect', 'asmsect')
DEFS = STRONG + ('wdef', 'walias', 'asmweak', 'tent', 'tent2')
REFS = ('ref', 'kr', 'blockref', 'ptrref', 'taken', 'addr')
LIBC = ('rand', 'random', 'lrand48', 'mrand48', 'optind', 'opterr', 'optopt', 'signgam')


class Mod:
    def __init__(self, i, where):
        self.i, self.where, self.roles = i, where, {}
        self.name = 'm%d' % i


def fval(m, s):
    return 1000 * (m + 1) + s * 7 + 3


def graph(r, style=None):
    """Returns (modules, syms, so_interposed)"""
    nm = r.randrange(2, 8)
    mods = [Mod(0, 'direct')]
    style = style or r.choice(['direct', 'direct', 'ar', 'ar', 'ar2', 'so', 'mixed', 'so'])
    for i in range(1, nm):
        w = {'direct': ['direct'], 'ar': ['direct', 'A', 'A'], 'ar2': ['direct', 'A', 'B', 'B'], 'so': ['direct', 'direct', 'S'], 'mixed': ['direct', 'A', 'B', 'S']}[style]
        mods.append(Mod(i, r.choice(w)))
    ns = r.randrange(3, 9)
    libc = r.random() < .25
    syms = [('f' if r.random() < .5 else 'd', r.choice(['sym%d', 'x_%d', 'a_rather_long_symbol_name_number_%d', '_u%d', 'S%d', 'sYm%d']) % k, k) for k in range(ns)]
    if libc:
        for j in range(len(syms)):
            if r.random() < .5: syms[j] = (syms[j][0], {'f': ['rand', 'random', 'lrand48', 'mrand48'], 'd': ['optind', 'opterr', 'optopt', 'signgam']}[syms[j][0]][j % 4], syms[j][2])
    syms = list({n: (a, n, k) for a, n, k in syms}.values())
    pdup, pundef = r.choice([0, 0, 0, .12]), r.choice([0, 0, 0, .12])
    for kind, name, k in syms:
        strong = 0
        inline_done = False
        for m in mods:
            if r.random() < .3: continue
            role = r.choice(FROLES if kind == 'f' else DROLES)
            if role in ('tent', 'tent2') and name in LIBC: role = 'def'
            if role in STRONG:
                if strong and m.where == 'direct' and r.random() > pdup: role = r.choice(['ref', 'ref', 'wdef', 'static'])
                elif m.where == 'direct': strong += 1
            m.roles[name] = role
        # an inline family: one module gives the external definition
        if kind == 'f' and r.random() < .2:
            d = [m for m in mods if m.where == 'direct']
            e = r.choice(d)
            for m in mods:
                if m.where == 'direct' and m is not e and (m.roles.get(name) == 'ref' or m.roles.get(name) in DEFS):
                    m.roles[name] = r.choice(['inline', 'ref'])
                elif m.where != 'direct' and m.roles.get(name) in DEFS: m.roles[name] = 'ref'
            e.roles[name] = r.choice(['extinline', 'inlineext'])
            inline_done = True
        # somebody should define it, usually
        refs = [m for m in mods if m.roles.get(name) in REFS]
        defs = [m for m in mods if m.roles.get(name) in DEFS + ('extinline', 'inlineext')]
        if refs and not defs and r.random() > pundef:
            r.choice(mods).roles[name] = r.choice(['def', 'wdef', 'def'])
        # ld also takes an archive member to define a common symbol: not required
        if any(m.roles.get(name) in ('tent', 'tent2') for m in mods):
            for m in mods:
                if m.where in 'AB' and m.roles.get(name) not in (None, 'ref', 'static'): m.roles[name] = 'ref'
                # nor is it to prefer the definition of a shared object
                if m.where == 'S' and m.roles.get(name): m.roles[name] = 'static'
            if not any(m.where == 'direct' and m.roles.get(name) in ('tent', 'tent2') for m in mods): mods[0].roles[name] = 'tent'
        # two zero-initialised definitions: known finding
        if any(m.roles.get(name) == 'zero' for m in mods):
            for m in mods:
                if m.roles.get(name) in DEFS and m.roles[name] not in ('zero', 'wdef'): m.roles[name] = 'ref'
            z = [m for m in mods if m.roles.get(name) == 'zero']
            for m in z[1:]: m.roles[name] = 'ref'
        # which of two members of one archive is taken depends on the order of the index
        for a in 'AB':
            d = [m for m in mods if m.where == a and m.roles.get(name) in DEFS]
            for m in d[1:]: m.roles[name] = 'ref'
        # a hidden definition is the only one
        for m in mods:
            if m.roles.get(name) == 'hdef' and (m.where == 'S' or sum(n.roles.get(name) in DEFS for n in mods) > 1): m.roles[name] = 'def'
        # in memory libc comes before any library: known finding
        if name in LIBC:
            for m in mods:
                if m.where == 'S' and m.roles.get(name): m.roles[name] = 'static'
        # a shared object is complete in itself
        so = [m for m in mods if m.where == 'S']
        for m in so:
            if m.roles.get(name) in REFS and not any(n.roles.get(name) in DEFS for n in so):
                m.roles[name] = 'def'
            elif m.roles.get(name) == 'wref': m.roles[name] = 'static'
        st = [m for m in so if m.roles.get(name) in STRONG]
        for m in st[1:]: m.roles[name] = 'ref'
        # 'const' data is not written to: everyone treats the name so
        if any(m.roles.get(name) == 'const' for m in mods):
            for m in mods:
                if m.roles.get(name) == 'const': m.roles[name] = 'def'
    return mods, syms


def source(m, syms, nshow, so_shows):
    """C text of a module."""
    i = m.i
    T, body, late = [], [], []
    so = m.where == 'S'
    pr = 'out'
    for kind, name, k in syms:
        role = m.roles.get(name)
        if role is None: continue
        v = fval(i, k)
        if kind == 'f':
            call = '%s("m%d %s %%d\\n", %s());' % (pr, i, name, name)
            if role == 'ref': T.append('int %s(void);' % name)
            elif role == 'wref':
                T.append('extern int %s(void) __attribute__((weak));' % name)
                call = 'if (%s) %s else %s("m%d %s none\\n");' % (name, call, pr, i, name)
            elif role == 'def': T.append('int %s(void) { return %d; }' % (name, v))
            elif role == 'wdef': T.append('__attribute__((weak)) int %s(void) { return %d; }' % (name, v))
            elif role == 'kr': T.append('int %s();' % name)
            elif role == 'hdef': T.append('__attribute__((visibility("hidden"))) int %s(void) { return %d; }' % (name, v))
            elif role in ('asmdef', 'asmweak'): T.append('int %s(void);\n__asm__(".pushsection .text\\n.%s %s\\n.type %s,@function\\n%s: movl $%d, %%eax\\nret\\n.size %s, .-%s\\n.popsection\\n");' % (name, 'globl' if role == 'asmdef' else 'weak', name, name, name, v, name, name))
            elif role == 'static': T.append('static int %s(void) { return %d; }' % (name, v))
            elif role == 'alias': T.append('static int impl_%s(void) { return %d; }\nint %s(void) __attribute__((alias("impl_%s")));' % (name, v, name, name))
            elif role == 'walias': T.append('static int impl_%s(void) { return %d; }\nint %s(void) __attribute__((weak, alias("impl_%s")));' % (name, v, name, name))
            elif role == 'sinline': T.append('static inline int %s(void) { return %d; }' % (name, v))
            elif role == 'static_fwd':
                T.append('static int %s(void);' % name)
                late.append('int %s(void) { return %d; }' % (name, v))
            elif role == 'staticafter':
                T.append('static int %s(void) { return %d; }\nextern int %s(void);' % (name, v, name))
            elif role == 'blockref': call = '{ extern int %s(void); %s }' % (name, call)
            elif role == 'ptrref':
                T.append('int %s(void);\nstatic int (*p_%s)(void) = %s;' % (name, name, name))
                call = '%s("m%d %s %%d\\n", p_%s());' % (pr, i, name, name)
            elif role == 'taken':
                T.append('int %s(void);\nstruct { int n; int (*f)(void); } t%d_%s = { 4, &%s };' % (name, i, name, name))
                call = '%s("m%d %s %%d %%d\\n", t%d_%s.f(), t%d_%s.f == %s);' % (pr, i, name, i, name, i, name, name)
            # every definition of an inline function is the same
            elif role == 'inline': T.append('inline int %s(void) { return %d; }' % (name, 77 + k))
            elif role == 'extinline': T.append('extern inline int %s(void) { return %d; }' % (name, 77 + k))
            elif role == 'inlineext': T.append('inline int %s(void) { return %d; }\nextern int %s(void);' % (name, 77 + k, name))
            body.append(call)
        else:
            use = '%s("m%d %s %%d\\n", %s); %s = %s * 3 + %d;' % (pr, i, name, name, name, name, i)
            if role == 'ref': T.append('extern int %s;' % name)
            elif role == 'wref':
                T.append('extern int %s __attribute__((weak));' % name)
                use = 'if (&%s) { %s } else %s("m%d %s none\\n");' % (name, use, pr, i, name)
            elif role == 'def': T.append('int %s = %d;' % (name, v))
            elif role == 'hdef': T.append('__attribute__((visibility("hidden"))) int %s = %d;' % (name, v))
            elif role == 'asmdef': T.append('extern int %s;\n__asm__(".pushsection .data\\n.balign 4\\n.globl %s\\n.type %s,@object\\n.size %s,4\\n%s: .int %d\\n.popsection\\n");' % (name, name, name, name, name, v))
            elif role == 'sect': T.append('__attribute__((section(".vf%d"))) int %s = %d;' % (k, name, v))
            elif role == 'asmsect': T.append('extern int %s;\n__asm__(".section .vfa%d,\\"aw\\"\\n.balign 4\\n.globl %s\\n.type %s,@object\\n.size %s,4\\n%s: .int %d\\n.previous\\n");' % (name, k, name, name, name, name, v))
            elif role == 'zero': T.append('int %s = 0;' % name)
            elif role == 'wdef': T.append('__attribute__((weak)) int %s = %d;' % (name, v))
            elif role == 'static': T.append('static int %s = %d;' % (name, v))
            elif role == 'tent': T.append('int %s;' % name)
            elif role == 'tent2': T.append('int %s;\nextern int %s;\nint %s;' % (name, name, name))
            elif role == 'extinit': T.append('extern int %s;\nint %s = %d;' % (name, name, v))
            elif role == 'static_ext': T.append('static int %s = %d;\nextern int %s;' % (name, v, name))
            elif role == 'statictent': T.append('static int %s;\nstatic int %s = %d;\nstatic int %s;' % (name, name, v, name))
            elif role == 'blockref': use = '{ extern int %s; %s }' % (name, use)
            elif role == 'blockstatic': use = '{ static int %s = %d; %s }' % (name, v, use)
            elif role == 'dalias': T.append('static int impl_%s = %d;\nextern int %s __attribute__((alias("impl_%s")));' % (name, v, name, name))
            elif role == 'addr':
                T.append('extern int %s;\nint *a%d_%s = &%s;' % (name, i, name, name))
                use = '%s("m%d %s %%d\\n", *a%d_%s); *a%d_%s = %s + %d;' % (pr, i, name, i, name, i, name, name, i)
            body.append(use)
    head = ['int printf(const char *, ...);', '#define out printf']
    if so:
        tail = ['void show_%d(void)\n{\n    %s\n}' % (i, '\n    '.join(body))]
    else:
        head.append('extern void (*shows_[])(void);')
        tail = ['static void show(void)\n{\n    %s\n}' % '\n    '.join(body),
                '__attribute__((constructor)) static void reg(void) { shows_[%d] = show; }' % i]
    if i == 0:
        head.append(''.join('void show_%d(void);\n' % s for s in so_shows))
        tail += ['void (*shows_[%d])(void);' % (nshow + 1),
                 'int main(void)\n{\n    int i, k, n = 0;\n    out("start\\n");\n    for (k = 0; k < 2; k++) {\n        for (i = 0; i < %d; i++)\n            if (shows_[i]) { shows_[i](); n++; }\n        %s\n    }\n    out("shown %%d\\n", n);\n    return n;\n}' % (nshow, ' '.join('show_%d();' % s for s in so_shows))]
    return '\n'.join(head + T + tail + late) + '\n'
