#!/usr/bin/env python3
"""Plants bugs: seed.py SPEC.py [id...] [--nocheck] [--keep-demo]
SPEC.py defines SEEDS: list of dict(id, property, edits=[(file, old, new)],
needs, breaks, demo, files={name: text}, checks=[...]).
Writes /verif/seeded/<id>/ and confirms it in a copy of /repo mounted over
/repo in a private namespace: demo passes clean, build+tests pass patched,
demo fails patched, check result."""
import sys, os, subprocess, json, shutil, runpy, tempfile
from concurrent.futures import ThreadPoolExecutor
V = '/verif'
BASE = '0e28e35'
PRE = '#!/bin/bash\nhere=$(cd "$(dirname "$0")" && pwd)\nt=$(mktemp -d) || exit 1\ntrap \'rm -rf "$t"\' EXIT\n'

def sh(c, **k):
    return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace', **k)

def ns(copy, cmd, timeout=1200):
    tmp = copy + '.tmp'
    os.makedirs(tmp, exist_ok=True)
    script = 'mount --bind %s /repo && mount --bind %s /tmp && cd /repo && %s' % (copy, tmp, cmd)
    try:
        r = subprocess.run(['unshare', '-Urm', 'bash', '-c', script], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace', timeout=timeout)
        return r.returncode, r.stdout
    except subprocess.TimeoutExpired:
        return 'timeout', ''

def one(s, nocheck):
    sid = s['id']
    copy = '/var/tmp/seed-' + sid
    sh('rm -rf %s %s.tmp' % (copy, copy))
    sh('cp -a /repo %s' % copy)
    out = [sid]
    try:
        for f, old, new in s['edits']:
            p = os.path.join(copy, f)
            t = open(p, errors='surrogateescape').read()
            if t.count(old) != 1:
                return '%s: edit matches %d times: %r' % (sid, t.count(old), old[:80])
            bl = sh('git -C %s blame -s -- %s' % (copy, f)).stdout.split('\n')
            a = t[:t.index(old)].count('\n'); b = a + old.rstrip('\n').count('\n')
            open(p, 'w', errors='surrogateescape').write(t.replace(old, new))
        patch = sh('git -C %s diff' % copy).stdout
        # are removed lines original?
        mine = 0; orig = 0
        import re
        for f in {e[0] for e in s['edits']}:
            base = sh('git -C %s show %s:%s' % (copy, BASE, f)).stdout.split('\n')
            bs = set(base)
            for l in sh('git -C %s diff -U0 -- %s' % (copy, f)).stdout.split('\n'):
                if l.startswith('-') and not l.startswith('---'):
                    if l[1:] in bs: orig += 1
                    else: mine += 1
        if orig == 0:
            out.append('WARNING: no original line changed')
        d = os.path.join(V, 'seeded', sid)
        os.makedirs(d, exist_ok=True)
        open(d + '/patch.diff', 'w', errors='surrogateescape').write(patch)
        open(d + '/demo.sh', 'w').write(PRE + s['demo'].lstrip('\n'))
        os.chmod(d + '/demo.sh', 0o755)
        for n, x in s.get('files', {}).items():
            open(os.path.join(d, n), 'w').write(x)
        json.dump({'property': s['property'], 'needs': s['needs'], 'what_it_breaks': s['breaks']}, open(d + '/meta.json', 'w'), indent=1)
        dd = copy + '.tmp/d'
        os.makedirs(dd)
        sh('cp -a %s/. %s/; rm -f %s/*.diff %s/meta.json' % (d, dd, dd, dd))
        sh('git -C %s checkout -- .' % copy)
        rc, o = ns(copy, 'bash /opt/vp/build.sh >/dev/null 2>&1; timeout 300 bash /tmp/d/demo.sh')
        out.append('clean-demo=%s' % rc)
        if rc != 0:
            return ' '.join(out) + '\n' + o[-1500:]
        sh('git -C %s apply %s/patch.diff' % (copy, d))
        rc, o = ns(copy, 'bash /opt/vp/build.sh >/tmp/b.log 2>&1 || { tail -20 /tmp/b.log; exit 9; }')
        if rc != 0:
            return ' '.join(out) + ' BUILD FAILED ' + o[-800:]
        rc, o = ns(copy, 'rm -rf /tmp/cjit-*; timeout 300 bash /tmp/d/demo.sh')
        out.append('bug-demo=%s' % rc)
        if rc == 0:
            return ' '.join(out) + ' DEMO DOES NOT FAIL'
        demo_out = o
        rc, o = ns(copy, 'bash /opt/vp/test.sh /tmp/o.json > /tmp/t.log 2>&1; cat /tmp/o.json')
        try:
            res = json.loads(o)
            base = json.load(open('/opt/vp/BASELINE.json'))
            want = set(base['stable'])
            miss = want - set(res['passed'])
            out.append('tests=%s' % ('ok' if not miss else 'FAIL %s' % sorted(miss)[:6]))
        except Exception as e:
            out.append('tests=? %s %s' % (e, o[-300:]))
        if not nocheck:
            for c in s.get('checks', [s['property']]):
                rc, o = ns(copy, 'VERIF_SEED=1 VF_KEEP=1 python3 /verif/check.py %s quick' % c)
                v = [l for l in o.split('\n') if 'VIOLATION' in l]
                out.append('%s=%s(%d)' % (c, rc, len(v)))
                if rc != 1: out.append('MISSED')
                else: out.append('| ' + (o[o.index('VIOLATION'):].split('\n') + [''])[1][:150])
        return ' '.join(out)
    finally:
        sh('rm -rf %s %s.tmp' % (copy, copy))

def main():
    args = sys.argv[1:]
    nocheck = '--nocheck' in args
    args = [a for a in args if not a.startswith('--')]
    seeds = runpy.run_path(args[0])['SEEDS']
    if args[1:]:
        seeds = [s for s in seeds if any(s['id'].startswith(a) for a in args[1:])]
    with ThreadPoolExecutor(int(os.environ.get('J', '2'))) as ex:
        for r in ex.map(lambda s: one(s, nocheck), seeds):
            print(r, flush=True)
main()
