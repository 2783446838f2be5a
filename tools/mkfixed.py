#!/usr/bin/env python3
"""Regenerates the 'fixed:' part of known_findings.txt (KNOWN lines are kept)."""
import subprocess, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = dict(x.split(':') for x in '''d2cdf67:C09 391be3e:C09 3868006:C06 09c1f9b:C06 50b9f14:C25 862738f:C25 81a8967:C11 8ceb69c:C16 9ced639:C16 43ccefd:C12 96a3335:C14 41a3dcd:C14 f76dbb5:C14 876df97:C14 2176c7c:C14 c01b5e9:C14 4e7a6d9:C14 4d05c38:C14 696e8c8:C14 b5849e9:C16 ff894b1:C11 036f69d:C24 ca30b3c:C24 dfdd3a5:C24 5aed68e:C24 4c5b830:C24 191bd48:C10 2941e28:C10 5cfef37:C10 f94594b:C10 304d81e:C12 2eacc82:C12 f043fcd:C05 ba56fef:C15 712ae1d:C15 89853ca:C15 2aa5df8:C15 611a00c:C15 7821140:C15 0821219:C15 e426dbe:C15 0468296:C15 5dd7fff:C03 a0143dc:C07 a6caf3b:C05 3264aed:C23 2c6d05d:C13'''.split())
import re
extra = V + '/tools/fixprops.txt'
if os.path.exists(extra):
    P.update(l.split()[:2] for l in open(extra) if l.strip())
keep = [l for l in open(V + '/known_findings.txt') if not l.startswith('fixed:')] if os.path.exists(V + '/known_findings.txt') else []
log = subprocess.run(['git', '-c', 'safe.directory=*', '-C', '/repo', 'log', '--reverse', '--format=%h %s', '0e28e35..HEAD'], capture_output=True, text=True).stdout
with open(V + '/known_findings.txt', 'w') as f:
    f.writelines(keep)
    for l in log.splitlines():
        h, s = l.split(' ', 1)
        if s.startswith('fix: '):
            if h[:7] not in P: print('no property for', l); continue
            f.write('fixed: property=%s %s %s\n' % (P[h[:7]], h[:7], s[5:]))
