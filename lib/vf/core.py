"""Common machinery: scratch directory, seed, runner, verdicts, evidence."""
import os, sys, re, json, time, random, shutil, signal, subprocess, tempfile
import threading, traceback, atexit, resource, hashlib
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
REPO = os.environ.get('VF_REPO', '/repo')
NCPU = os.cpu_count() or 8


class HarnessError(Exception):
    pass


class Res:
    """Outcome of one process."""
    __slots__ = ('rc', 'out', 'err', 'timeout', 'wall')

    def __init__(self, rc, out, err, timeout, wall):
        self.rc, self.out, self.err, self.timeout, self.wall = rc, out, err, timeout, wall

    @property
    def sig(self):
        return -self.rc if self.rc is not None and self.rc < 0 else 0

    @property
    def text(self):
        return self.out.decode('utf-8', 'replace')

    @property
    def etext(self):
        return self.err.decode('utf-8', 'replace')

    def brief(self, n=1500):
        return 'exit=%s timeout=%s\n--- stdout\n%s\n--- stderr\n%s' % (
            self.rc, self.timeout, self.text[-n:], self.etext[-n:])


_live = set()
_live_lock = threading.Lock()


def run(cmd, timeout=60, input=None, cwd=None, env=None, stdin=None, maxout=64 << 20, pass_fds=(), umask=None):
    """Runs a command in its own session; kills the whole group on timeout."""
    t0 = time.time()
    kw = {}
    if umask is not None:
        kw['umask'] = umask
    p = subprocess.Popen(cmd, stdin=(subprocess.PIPE if input is not None else (stdin if stdin is not None else subprocess.DEVNULL)),
                         stdout=subprocess.PIPE, stderr=subprocess.PIPE, cwd=cwd, env=env,
                         start_new_session=True, pass_fds=pass_fds, **kw)
    with _live_lock:
        _live.add(p.pid)
    to = False
    try:
        try:
            out, err = p.communicate(input=input, timeout=timeout)
        except subprocess.TimeoutExpired:
            to = True
            _killpg(p.pid)
            try:
                out, err = p.communicate(timeout=5)
            except subprocess.TimeoutExpired:
                p.kill()
                out, err = b'', b''
        except BrokenPipeError:
            out, err = p.communicate()
    finally:
        _killpg(p.pid)
        with _live_lock:
            _live.discard(p.pid)
    return Res(p.returncode, out, err, to, time.time() - t0)


def _killpg(pid):
    try:
        os.killpg(pid, signal.SIGKILL)
    except (ProcessLookupError, PermissionError):
        pass


def run_wd(cmd, timeout=20, **kw):
    """run() with the watchdog discipline: a case that hits the limit is
    re-run alone-ish with ten times the limit before it counts as hanging."""
    r = run(cmd, timeout=timeout, **kw)
    if r.timeout:
        r = run(cmd, timeout=timeout * 6, **kw)
    return r


def pmap(fn, items, workers=NCPU):
    """Parallel map; exceptions in a worker are errors of the check."""
    items = list(items)
    with ThreadPoolExecutor(max_workers=workers) as ex:
        return list(ex.map(fn, items))


SAN_RE = re.compile(r'(ERROR: (?:Address|Leak|Memory|Thread)Sanitizer[^\n]*|WARNING: (?:Thread|Memory)Sanitizer[^\n]*|[^\s:]+:\d+:\d+: runtime error: [^\n]*|\*\*\* (?:buffer overflow|stack smashing) detected[^\n]*|(?:malloc|free|realloc|corrupted|double free|munmap_chunk)[^\n]*(?:invalid|corrupted|corruption|detected)[^\n]*)')


def san_report(text):
    """First sanitizer report in a text, or None."""
    if isinstance(text, bytes):
        text = text.decode('utf-8', 'replace')
    m = SAN_RE.search(text)
    return m.group(1) if m else None


def san_key(text):
    """A stable key for a sanitizer report: kind + first frame in /repo's code."""
    if isinstance(text, bytes):
        text = text.decode('utf-8', 'replace')
    rep = san_report(text) or 'none'
    rep = re.sub(r'0x[0-9a-f]+', 'X', rep)
    rep = re.sub(r'^\S*/', '', rep)
    kind = re.sub(r'\(.*', '', rep)[:80]
    m = re.search(r'#\d+ 0x[0-9a-f]+ in (\w+) (?:\S*/)?(?:src|tinycc|harness)/(\S+?):', text)
    return kind.strip() + (' in ' + m.group(1) if m else '')


class Ctx:
    def __init__(self, pid, tier):
        self.pid, self.tier = pid, tier
        self.quick = tier != 'thorough'
        self.seed = int(os.environ.get('VERIF_SEED', '1') or 1)
        self.rng = random.Random('%s/%d' % (pid, self.seed))
        base = os.environ.get('VF_TMP') or tempfile.gettempdir()
        self.dir = tempfile.mkdtemp(prefix='vf-%s-' % pid.lower(), dir=base)
        self.lock = threading.Lock()
        self.counts = {}
        self.sets = {}
        self.samples = []
        self.viol = {}
        self.known = {}
        self.incon = {}
        self.notes = []
        self.evals = 0
        self.nontriv = set()
        self.t0 = time.time()
        self.paths = [self.dir]
        self.findings = load_findings(pid)
        self.replaydir = os.path.join(VERIF, 'evidence', 'replay', pid)

    # ---- scale ------------------------------------------------------------
    def n(self, quick, thorough):
        v = quick if self.quick else thorough
        s = float(os.environ.get('VF_SCALE', '1'))
        return max(1, int(v * s))

    def sub(self, name):
        d = os.path.join(self.dir, name)
        os.makedirs(d, exist_ok=True)
        return d

    def rand(self, *key):
        return random.Random('%s/%d/%s' % (self.pid, self.seed, '/'.join(map(str, key))))

    # ---- observations -----------------------------------------------------
    def obs(self, name, n=1):
        with self.lock:
            self.counts[name] = self.counts.get(name, 0) + n

    def distinct(self, name, value):
        with self.lock:
            self.sets.setdefault(name, set()).add(value)

    def case(self, key=None, nontrivial=True):
        """One evaluated case; key identifies it for the distinct count."""
        with self.lock:
            self.evals += 1
            if nontrivial and key is not None:
                self.nontriv.add(hash(key) if not isinstance(key, (int, str)) else key)

    def sample(self, s, limit=6):
        with self.lock:
            if len(self.samples) < limit:
                self.samples.append(s if len(str(s)) < 1500 else str(s)[:1500] + '...')

    def inconclusive(self, what):
        with self.lock:
            self.incon[what] = self.incon.get(what, 0) + 1

    def note(self, s):
        with self.lock:
            self.notes.append(s)

    # ---- verdicts ---------------------------------------------------------
    def violation(self, key, msg, files=None):
        """key identifies the failing input/call site (matched against the
        known findings); files: name -> content kept for replay."""
        with self.lock:
            for k, what in self.findings:
                if k == key:
                    self.known[k] = what
                    return False
            first = key not in self.viol
            if first:
                self.viol[key] = msg
                if len(self.viol) <= 20:
                    d = os.path.join(self.replaydir, re.sub(r'[^\w.-]+', '_', key)[:60] + '-' +
                                     hashlib.sha1(key.encode()).hexdigest()[:6])
                    os.makedirs(d, exist_ok=True)
                    with open(os.path.join(d, 'report.txt'), 'w', errors='replace') as f:
                        f.write('property %s seed %d tier %s\nkey: %s\n\n%s\n' % (self.pid, self.seed, self.tier, key, msg))
                    for n, c in (files or {}).items():
                        with open(os.path.join(d, n.replace('/', '_')), 'wb') as f:
                            f.write(c if isinstance(c, bytes) else str(c).encode('utf-8', 'surrogateescape'))
                    print('VIOLATION property=%s replay=%s' % (self.pid, d))
                    print('  %s: %s' % (key, msg[:600].replace('\n', '\n  ')))
                    sys.stdout.flush()
            return first

    def cleanup(self):
        for pid in list(_live):
            _killpg(pid)
        for p in self.paths:
            chmod_tree(p)
            shutil.rmtree(p, ignore_errors=True)


def chmod_tree(p):
    if os.path.isdir(p) and not os.path.islink(p):
        for r, ds, fs in os.walk(p):
            try:
                os.chmod(r, 0o700)
            except OSError:
                pass


def load_findings(pid):
    """known_findings.txt lines:
       KNOWN property=<id> key=<key> :: <what fails>
       fixed: property=<id> <commit> <what failed>          (suppresses nothing)"""
    out = []
    p = os.path.join(VERIF, 'known_findings.txt')
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r'KNOWN property=(\w+) key=(.*?) :: (.*)$', l.strip())
            if m and m.group(1) == pid:
                out.append((m.group(2), m.group(3)))
    return out


def main(pid, tier, mod):
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    os.environ.setdefault('LC_ALL', 'C.UTF-8')
    for k in ('MAKEFLAGS', 'CFLAGS', 'LDFLAGS', 'CPATH', 'C_INCLUDE_PATH', 'LIBRARY_PATH', 'LD_LIBRARY_PATH', 'TCC_LIBRARY_PATH', 'TCC_CPATH'):
        os.environ.pop(k, None)
    ctx = Ctx(pid, tier)
    atexit.register(ctx.cleanup)
    shutil.rmtree(ctx.replaydir, ignore_errors=True)

    def on_term(s, f):
        ctx.cleanup()
        os._exit(4)
    signal.signal(signal.SIGTERM, on_term)
    signal.signal(signal.SIGINT, on_term)
    rc = 0
    try:
        mod.check(ctx)
    except Exception:
        traceback.print_exc()
        rc = 3
    if not rc and ctx.evals == 0:
        print('error: nothing was evaluated')
        rc = 3
    cov = {'evaluations': ctx.evals, 'distinct_nontrivial': len(ctx.nontriv),
           'rule': getattr(mod, 'RULE', ''), 'samples': ctx.samples,
           'observed': dict(sorted(ctx.counts.items())),
           'distinct_observed': {k: len(v) for k, v in sorted(ctx.sets.items())},
           'inconclusive': ctx.incon, 'notes': ctx.notes}
    ev = {'property': pid, 'tier': tier if tier in ('quick', 'thorough') else 'quick', 'seed': ctx.seed,
          'level': getattr(mod, 'LEVEL', 'exploration'),
          'coverage': cov, 'assumptions': getattr(mod, 'ASSUMPTIONS', []),
          'wall_s': round(time.time() - ctx.t0, 2), 'violations': len(ctx.viol)}
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    with open(os.path.join(VERIF, 'evidence', pid + '.json'), 'w') as f:
        json.dump(ev, f, indent=1, default=str)
    for k, what in ctx.known.items():
        print('KNOWN-FINDING: property=%s %s' % (pid, what))
    missing = [k for k, w in ctx.findings if k not in ctx.known]
    for k in missing:
        print('note: listed finding not observed in this run: %s' % k)
    print('%s %s: %d evaluations, %d distinct, %d violations, inconclusive %s, %.1fs' % (
        pid, tier, ctx.evals, len(ctx.nontriv), len(ctx.viol), ctx.incon, time.time() - ctx.t0))
    if os.environ.get('VF_VERBOSE'):
        print(json.dumps(cov['observed'], indent=1), json.dumps(cov['distinct_observed']))
    if ctx.viol:
        if len(ctx.viol) > 20:
            print('  (%d further violations not written out)' % (len(ctx.viol) - 20))
        rc = 1
    ctx.cleanup()
    sys.stdout.flush()
    os._exit(rc)
