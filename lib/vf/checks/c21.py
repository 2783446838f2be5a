"""C21 stack reports and line tables against the line every call was generated on."""
import os, re, shutil
from .. import core, build

RULE = ('A case is one generated program of 1-4 modules and headers: a chain of functions (recursion, function pointers, macros, inline functions in headers, #line, statement '
        'expressions, VLAs) whose every call and marker has a line known to the generator. Run with backtrace support in memory and as executables, each marker asks for a stack '
        'report and the last function faults: the reports must name function, file and line of the marker and of every pending call up to main, in order. Built with -g (DWARF 2-5, '
        'objects linked by gcc, shared objects), the return address of every marker must map through addr2line to the marker\'s function, file and line. Non-trivial: a report of at least three frames '
        'was compared, or at least five addresses.')
ASSUMPTIONS = ['a call inside a statement of several lines may be reported at any line of that statement up to the call\'s last', 'frames of library functions (callbacks from libc) are not followed',
               'addr2line is right about valid line tables']


class Prog:
    def __init__(self, rng, bt):
        self.r = rng
        self.files = {}
        self.cur = None
        self.alias = {}
        self.marks = {}      # k -> (file, lo, hi, func)
        self.calls = {}      # function -> (caller, file, lo, hi)
        self.k = 0
        self.bt = bt
        self.fn = None

    # text of the current file; the presumed position follows #line
    def line(self, t):
        self.files[self.cur].append(t)

    def pos(self):
        base, name = self.alias.get(self.cur, (0, self.cur))
        return name, len(self.files[self.cur]) + 1 - base

    def noise(self):
        r = self.r
        if r.random() < .06:
            for n in range(r.randrange(1, 24)):
                self.line('')
        if r.random() < .35:
            self.line(r.choice(['', '', '/* one', '// text', '#if 0', '#define N%d 1' % self.k, '  ;', '\\', '/* a */ /* b */']))
            last = self.files[self.cur][-1]
            if last == '/* one':
                self.line('   two */')
            elif last == '#if 0':
                self.line('bogus ( { " ')
                self.line('#endif')
            elif last == '\\':
                self.line('')
        if r.random() < .06:
            n = r.choice([1, 7, 100, 5000, 40000])
            name = r.choice([self.cur_name(), 'other%d.y' % r.randrange(3)]) if r.random() < .6 and '/' not in self.cur else None
            if name:
                self.line('#line %d "%s"' % (n, name))
            else:
                name = self.pos()[0]
                self.line('#line %d' % n)
            # the next line has the number n
            self.alias[self.cur] = (len(self.files[self.cur]) + 1 - n, name)

    def cur_name(self):
        return self.cur

    def header(self, name, body):
        """run body() while writing the header; the text goes on where it was"""
        cur, fn = self.cur, self.fn
        self.cur = name
        self.files[name] = []
        body()
        self.cur, self.fn = cur, fn

    def mark(self):
        """an expression of type int that marks"""
        self.k += 1
        f, l = self.pos()
        self.marks[self.k] = (f, l, l, self.fn)
        return ('MARK(%d)' % self.k) if self.r.random() < .6 else ('(%s(%d))' % ('BTM', self.k))

    def wrap(self, e, stmt):
        """a statement (or several lines) that evaluates e exactly once or a few times"""
        r = self.r
        k = self.k
        c = r.randrange(17)
        if c == 0:
            self.line('  %s;' % e)
        elif c == 1:
            self.line('  if (x >= 0) %s;' % e)
        elif c == 2:
            self.line('  for (int i%d = 0; i%d < 2; i%d++) r += %s;' % (stmt, stmt, stmt, e))
        elif c == 3:
            self.line('  do { r += %s; } while (0);' % e)
        elif c == 4:
            self.line('  r += (%s, 1);' % e)
        elif c == 5:
            self.line('  switch (x | 1) { case -5: r++; break; default: r += %s; }' % e)
        elif c == 6:
            self.line('  int v%d = %s; r += v%d;' % (stmt, e, stmt))
        elif c == 7:
            self.line('  r += ({ int q = %s; q + 1; });' % e)
        elif c == 8:
            self.line('  WRAP(r += %s);' % e)
        elif c == 9:
            self.line('  r += x > -1 ? %s : 0;' % e)
        elif c == 10:
            self.line('  { struct big w%d = { { %s } }; r += takes(w%d).a[1]; }' % (stmt, e, stmt))
        elif c == 11:
            self.line('  { char vla%d[x + 5]; vla%d[0] = %s; r += vla%d[0]; }' % (stmt, stmt, e, stmt))
        elif c == 12:
            self.line('  r += arr[%s & 3] + (x < 0 || %s);' % (e, 1))
        elif c == 13:
            self.line('  while (1) { r += %s; break; }' % e)
        elif c == 14:
            self.line('  if (!%s) r = 2; else r = 3;' % e)
        elif c == 15:
            self.line('  d += %s * 1.5;' % e)
        elif c == 16:
            self.line('  asm volatile("nop"); { static int st; st += %s; }' % e)

    def statement(self, n):
        """a marker somewhere"""
        self.noise()
        r = self.r
        c = r.random()
        if c < .75:
            self.wrap(self.mark(), n)
        elif c < .85:
            a, b = self.mark(), self.mark()
            self.line('  r += %s + %s;' % (a, b))
        elif c < .92:
            # a block of several lines
            self.line('  if (x >= 0)')
            self.line('  {')
            self.wrap(self.mark(), n)
            self.line('  }')
            self.line('  else')
            self.line('    r--;')
        else:
            self.line('  switch (x & 0)')
            self.line('  {')
            self.line('  case 1:')
            self.line('    r = 3;')
            self.line('  case 0:')
            self.line('    r += %s;' % self.mark())
            self.line('    break;')
            self.line('  }')

    def call(self, g, n):
        """the call of the next function in the chain"""
        self.noise()
        f, l = self.pos()
        r = self.r
        form = r.choice(['%s(x + 1)', '%s(x + 1)', '(*&%s)(x + 1)', 'CALL(%s, x + 1)', 'ptr_%s(x + 1)', 'arg9_%s(1, 2.5, x + 1, 4, 5, 6, 7, 8, 9)'])
        if form.startswith(('ptr', 'arg9')) and True:
            form = '%s(x + 1)'
        e = form % g
        if r.random() < .2:
            lines = ['  r +=', '    CALL(%s,' % g, '      x + 1', '    );']
            self.calls[g] = (self.fn, f, l, l + 3)
            for t in lines:
                self.line(t)
            return
        self.calls[g] = (self.fn, f, l, l)
        # evaluated once: no loop
        c = r.randrange(8)
        self.line('  ' + ['%s;', 'r = %s;', 'if (x >= 0) r = %s;', 'r += ({ %s; });', 'WRAP(r = %s);', 'int t%d = %%s;' % n, 'r = x > -1 ? %s + 1 : 0;', 'switch (x & 0) { case 0: r = %s; }'][c] % e)

    def function(self, name, nxt, last, static):
        self.fn = name
        self.noise()
        self.line(('static ' if static else '') + 'int %s(int x)' % name)
        self.line('{')
        self.line('  int r = 0; double d = 0; static int arr[4];')
        for n in range(self.r.choice([0, 1, 2, 4])):
            self.statement(n)
        if nxt:
            self.call(nxt, 99)
        for n in range(self.r.choice([0, 1, 2])):
            self.statement(100 + n)
        if last:
            self.noise()
            f, l = self.pos()
            self.fault = (f, l, name, last)
            self.line({'null': '  if (zero == 0) *nul = 5;', 'nullr': '  r += nul[0];', 'div': '  r = 7 / zero;', 'mod': '  r %= zero;', 'ill': '  asm volatile("ud2");', 'wild': '  r += *(int *)0x1122334455667788;',
                       'macro': '  BOOM(nul);', 'nest': '  if (zero == 0) { for (;;) { r += ({ *nul = 1; 3; }); } }'}[last])
        self.noise()
        self.line('  return r + d + arr[1];')
        self.line('}')

    def prelude(self, mark):
        for t in mark.split('\n'):
            self.line(t)
        for t in ('#define MARK(k) BTM(k)', '#define WRAP(s) do { s; } while (0)', '#define CALL(f, a) f(a)', '#define BOOM(p) (*(p) = 9)', 'struct big { int a[12]; };', 'struct big takes(struct big);',
                  'extern int zero, *volatile nul;'):
            self.line(t)


def generate(rng, bt, fault):
    p = Prog(rng, bt)
    nfun = rng.choice([1, 2, 3, 4, 6, 9])
    nmod = rng.choice([1, 1, 2, 3, 4])
    mods = ['m%d.c' % i for i in range(nmod)]
    if rng.random() < .3 and nmod > 1:
        mods[1] = 'dir/m1.c'
    hdr = 'inl.h' if rng.random() < .5 else None
    mark = 'int tcc_backtrace(const char *, ...);\n#define BTM(k) tcc_backtrace("~%d", (int)(k))' if bt else 'int marker(int);\n#define BTM(k) marker(k)'
    names = ['main_chain'] + ['fn_%d' % i for i in range(1, nfun)]
    where = {}
    for n in names:
        where[n] = rng.choice(mods)
    # a header function in the chain: static inline, in the module of its caller
    hfun = rng.choice(names[1:]) if hdr and nfun > 1 else None
    names_all = ['main'] + names
    for m in mods:
        p.cur = m
        p.files[m] = []
        p.prelude(mark)
        for n in names:
            if n != hfun:
                p.line('int %s(int);' % n)
        if hfun and names_all[names_all.index(hfun) - 1] != 'main' and where.get(names_all[names_all.index(hfun) - 1]) == m or hfun and names_all[names_all.index(hfun) - 1] == 'main' and m == mods[0]:
            inc = ('../' if '/' in m else '') + hdr
            p.line('#include "%s"' % inc)
            hname = (os.path.dirname(m) + '/' if '/' in m else '') + inc
            p.cur = hdr
            p.files[hdr] = []
            p.alias[hdr] = (0, hname)
            i = names.index(hfun)
            p.line('/* header */')
            p.function(hfun, names[i + 1] if i + 1 < len(names) else None, fault if i + 1 == len(names) else None, True)
            p.cur = m
    for n in names:
        if n == hfun:
            continue
        p.cur = where[n]
        i = names.index(n)
        p.function(n, names[i + 1] if i + 1 < len(names) else None, fault if i + 1 == len(names) else None, False)
    p.cur = mods[0]
    p.fn = 'main'
    p.line('int zero, *volatile nul;')
    p.line('struct big takes(struct big b)')
    p.line('{')
    p.line('  return b;')
    p.line('}')
    # functions of headers with equal base names, often at equal lines
    helpers = []
    if rng.random() < .5:
        for h in rng.sample(['u/h.h', 'v/h.h', 'h.h', 'u/w/h.h'], rng.choice([2, 3])):
            fn = 'in_' + h.replace('/', '_').replace('.', '_')
            helpers.append(fn)

            def body():
                for n in range(rng.choice([0, 0, 3])):
                    p.line('')
                p.line('static int %s(int x)' % fn)
                p.line('{')
                p.line('  int r = 0; double d = 0; static int arr[4];')
                p.fn = fn
                for n in range(rng.choice([1, 2])):
                    p.wrap(p.mark(), n)
                if rng.random() < .5:
                    p.statement(9)
                p.line('  return r;')
                p.line('}')
            p.line('#include "%s"' % h)
            p.header(h, body)
    p.noise()
    p.line('int main(void)')
    p.line('{')
    p.line('  int x = 0, r = 0; double d = 0; static int arr[4];')
    for n in range(rng.choice([0, 1, 3])):
        p.statement(n)
    for fn in helpers:
        f, l = p.pos()
        p.calls[fn] = ('main', f, l, l)
        p.line('  r += %s(x);' % fn)
    if rng.random() < .3:
        if rng.random() < .6:
            p.line('  r += %s;' % p.mark())
        at = p.pos()[1]

        def part():
            # often the line that follows has the number of the one in front
            if at < 400 and rng.random() < .6:
                for n in range(at - 2):
                    p.line('')
                p.wrap(p.mark(), 49)
            for n in range(rng.choice([1, 2])):
                p.statement(50 + n)
        name = rng.choice(['part.inc', 'u/part.inc'])
        p.line('#include "%s"' % name)
        p.header(name, part)
        p.statement(60)
    p.call(names[0], 99)
    p.statement(100)
    p.line('  return 0;')
    p.line('}')
    p.mods = mods
    p.names = names
    return p


def expect(p, first, fn):
    """frames from (file, lo, hi, func) outwards to main"""
    out = [first]
    while fn != 'main':
        caller, f, lo, hi = p.calls[fn]
        out.append((f, lo, hi, caller))
        fn = caller
    return out


MARKER = r'''#define _GNU_SOURCE
#include <stdio.h>
#include <dlfcn.h>
int marker(int k) { Dl_info i; char *ra = __builtin_return_address(0); if (dladdr(ra, &i)) printf("M %d %lx %s\n", k, (unsigned long)(ra - (char *)i.dli_fbase), i.dli_fname); fflush(stdout); return k; }
'''


def check(ctx):
    b = build.build(ctx, 'plain')
    b.warm()
    env = dict(b.env(), LC_ALL='C')
    T = b.tcc

    def write(p, d):
        for n, t in p.files.items():
            os.makedirs(os.path.dirname(os.path.join(d, n)), exist_ok=True)
            with open(os.path.join(d, n), 'w') as f:
                f.write('\n'.join(t) + '\n')

    def same(got, want):
        # the reader of DWARF tables gives the last part of the file's name
        return os.path.normpath(got[0]) in (want[0], os.path.basename(want[0])) and want[1] <= got[1] <= want[2] and got[2] == want[3]

    def reports(text):
        """[(message, [(file, line, func)...])] in order"""
        out = []
        for l in text.split('\n'):
            m = re.match(r'(.*):(\d+): (at|by) (\S+?)(?:: (.*))?$', l)
            if not m:
                u = re.match(r'(0x[0-9a-f]+): (at|by) (\S+?)(?:: (.*))?$', l)
                if u:
                    g = ('?', 0, u.group(3))
                    if u.group(2) == 'at':
                        out.append((u.group(4) or '', [g]))
                    elif out:
                        out[-1][1].append(g)
                continue
            g = (m.group(1), int(m.group(2)), m.group(4))
            if m.group(3) == 'at':
                out.append((m.group(5) or '', [g]))
            elif out:
                out[-1][1].append(g)
        return out

    def back(j):
        rng = ctx.rand('bt', j)
        d = ctx.sub('b%d' % j)
        fault = rng.choice(['null', 'nullr', 'div', 'mod', 'ill', 'wild', 'macro', 'nest', None])
        p = generate(rng, True, fault)
        write(p, d)
        o = rng.choice(['-bt20', '-bt20', '-bt20 -g', '-bt20 -gdwarf-2', '-bt20 -gdwarf-3', '-bt20 -gdwarf-4', '-g -bt20', '-bt20 -gdwarf-5'])
        ways = [('memory', [[b.cjit, '-q', '-C' + o] + p.mods], None),
                ('cjit-exe', [[b.cjit, '-q', '-C' + o, '-o', 'prog'] + p.mods], ['./prog']),
                ('objects', [T + o.split() + ['-c', m, '-o', m + '.o'] for m in p.mods] + [T + o.split() + ['-o', 'prog2'] + [m + '.o' for m in p.mods]], ['./prog2'])]
        depth = 0
        for way, cmds, runit in rng.sample(ways, 2) if ctx.tier == 'quick' else ways:
            msg = None
            files = {}
            for c in cmds:
                r = core.run(c, cwd=d, env=env, timeout=40)
                if runit and r.rc != 0:
                    msg = '%s: %s failed: %s' % (way, ' '.join(c[-4:]), r.etext[-300:])
                    break
            if not msg and runit:
                r = core.run(runit, cwd=d, env=env, timeout=40)
            text = r.text + '\n' + r.etext
            files['report.txt'] = text
            if not msg:
                rep = reports(text)
                seen = set()
                for m, fr in rep:
                    want = None
                    k = re.match(r'~(\d+)$', m)
                    if k:
                        mk = p.marks[int(k.group(1))]
                        want = expect(p, mk, mk[3])
                        seen.add(int(k.group(1)))
                    elif 'RUNTIME ERROR' in m and fault:
                        want = expect(p, (p.fault[0], p.fault[1], p.fault[1], p.fault[2]), p.fault[2])
                        seen.add('fault')
                        kind = {'div': 'division by zero', 'mod': 'division by zero', 'ill': 'illegal instruction'}.get(fault, 'invalid memory access')
                        if kind not in m and not msg:
                            msg = '%s %s: fault %s reported as %r' % (way, o, fault, m)
                    else:
                        msg = msg or '%s %s: unexpected report %r' % (way, o, m)
                        continue
                    ctx.obs('frames_compared', len(want))
                    depth = max(depth, len(want))
                    ctx.distinct('stack_depths', len(want))
                    # what called main is unknown to the generator
                    head = fr[:len(want)]
                    for i, w in enumerate(want):
                        if (i >= len(head) or not same(head[i], w)) and not msg:
                            msg = '%s %s: report %r frame %d should be %s:%d%s in %s; got %s' % (way, o, m, i, w[0], w[1], '' if w[1] == w[2] else '-%d' % w[2], w[3], head[i] if i < len(head) else 'no frame')
                    for x in fr[len(want):]:
                        if x[0] != '?' and not msg and x[2] in p.names:
                            msg = '%s %s: report %r has a frame too many: %s' % (way, o, m, x)
                ctx.obs('reports_compared', len(rep))
                # all markers are reached, unless the fault comes first
                missing = set(p.marks) - seen
                if not fault and missing and not msg:
                    msg = '%s %s: no report for marker %s' % (way, o, min(missing))
                if fault and 'fault' not in seen and not msg:
                    msg = '%s %s: the fault (%s) was not reported; exit %s' % (way, o, fault, r.rc)
                if not msg and r.rc != (255 if fault else 0):
                    msg = '%s %s: exit status %s' % (way, o, r.rc)
            if msg:
                for n, t in p.files.items():
                    files[n.replace('/', '_')] = '\n'.join(t) + '\n'
                ctx.violation('backtrace-%d' % j, msg, files)
                break
        ctx.case('backtrace-%d' % j, nontrivial=depth >= 3)
        if j < 2:
            ctx.sample({'fault': fault, 'options': o, 'chain': p.names, 'main module': p.files[p.mods[0]][-12:]})
        shutil.rmtree(d, ignore_errors=True)

    mk = os.path.join(ctx.sub('mk'), 'marker.o')
    r = core.run(['gcc', '-c', '-fPIC', '-x', 'c', '-', '-o', mk], input=MARKER.encode())
    if r.rc:
        raise core.HarnessError(r.etext)

    def lines(j):
        rng = ctx.rand('ln', j)
        d = ctx.sub('l%d' % j)
        p = generate(rng, False, None)
        write(p, d)
        o = rng.choice(['-g', '-g', '-gdwarf-2', '-gdwarf-3', '-gdwarf-4', '-gdwarf-5', '-g -bt', '-g -ftest-coverage'][:7]).split()
        rest = [m for m in p.mods[1:]]
        ways = [('exe', [T + o + ['-o', 'prog'] + p.mods + [mk]]),
                ('objects', [T + o + ['-c', m, '-o', m + '.o'] for m in p.mods] + [T + o + ['-o', 'prog'] + [m + '.o' for m in p.mods] + [mk]]),
                ('gcc-link', [T + o + ['-c', m, '-o', m + '.o'] for m in p.mods] + [['gcc', '-no-pie', '-o', 'prog'] + [m + '.o' for m in p.mods] + [mk, '-ldl']]),
                ('ld-r', [T + o + ['-c', m, '-o', m + '.o'] for m in p.mods] + [T + o + ['-r', '-o', 'all.o'] + [m + '.o' for m in p.mods]] + [['gcc', '-no-pie', '-o', 'prog', 'all.o', mk, '-ldl']])]
        if rest:
            ways.append(('shared', [T + o + ['-shared', '-o', 'lib1.so'] + rest, T + o + ['-o', 'prog', p.mods[0], mk, '-rdynamic', './lib1.so']]))
        n = 0
        for way, cmds in rng.sample(ways, 2) if ctx.tier == 'quick' else ways:
            if way in ('gcc-link', 'ld-r') and '-bt' in o:
                continue
            msg = None
            files = {}
            for c in cmds:
                r = core.run(c, cwd=d, env=dict(env, TMPDIR=d), timeout=60)
                if r.rc:
                    msg = '%s %s: %s failed: %s' % (way, o, ' '.join(c[-5:]), r.etext[-300:])
                    break
            if not msg:
                r = core.run(['./prog'], cwd=d, env=dict(env, LD_LIBRARY_PATH=d), timeout=40)
                if r.rc:
                    msg = '%s %s: exit %s' % (way, o, r.rc)
            if not msg:
                addrs = {}
                seen = set()
                for k, a, f in re.findall(r'^M (\d+) ([0-9a-f]+) (\S+)$', r.text, re.M):
                    addrs.setdefault(f, set()).add((int(k), int(a, 16)))
                    seen.add(int(k))
                if set(p.marks) - seen:
                    msg = '%s %s: marker %d was not reached' % (way, o, min(set(p.marks) - seen))
                for f, l in addrs.items():
                    l = sorted(l)
                    base = 0
                    h = core.run(['readelf', '-hlW', f], cwd=d, env=env)
                    if 'EXEC (' in h.text:
                        base = min(int(x, 16) for x in re.findall(r'LOAD\s+0x[0-9a-f]+ (0x[0-9a-f]+)', h.text)) & ~0xfff
                    q = core.run(['addr2line', '-f', '-e', f] + [hex(base + a - 1) for k, a in l], cwd=d, env=env, timeout=60)
                    res = q.text.split('\n')
                    files['addr2line.txt'] = q.text
                    for i, (k, a) in enumerate(l):
                        fn, fl = (res[2 * i], res[2 * i + 1]) if 2 * i + 1 < len(res) else ('', '')
                        m = re.match(r'(.*):(\d+)', fl)
                        want = p.marks[k]
                        ctx.obs('addresses_mapped')
                        n += 1
                        got = (os.path.normpath(os.path.relpath(m.group(1), d) if m and os.path.isabs(m.group(1)) else m.group(1)) if m else '?', int(m.group(2)) if m else 0, fn)
                        if (got[0] != os.path.normpath(want[0]) or got[1] != want[1] or got[2] != want[3]) and not msg:
                            msg = '%s %s: marker %d is at %s:%d in %s; the debug information of %s says %s in %s' % (way, ' '.join(o), k, want[0], want[1], want[3], f, fl, fn)
                if not msg:
                    # no complaints of the readers
                    q = core.run(['readelf', '--debug-dump=decodedline,info', './prog'], cwd=d, env=env, timeout=60)
                    w = [x for x in q.etext.split('\n') if 'arning' in x or 'rror' in x]
                    if w:
                        msg = '%s %s: readelf: %s' % (way, ' '.join(o), w[0])
                    ctx.obs('line_tables_decoded')
            if msg:
                for nn, t in p.files.items():
                    files[nn.replace('/', '_')] = '\n'.join(t) + '\n'
                ctx.violation('lines-%d' % j, msg, files)
                break
        ctx.case('lines-%d' % j, nontrivial=n >= 5)
        shutil.rmtree(d, ignore_errors=True)

    only = os.environ.get('VF_ONLY')
    if only:
        (back if only[0] == 'b' else lines)(int(only[1:]))
        return
    core.pmap(back, range(ctx.n(300, 6000)))
    core.pmap(lines, range(ctx.n(240, 5000)))
