"""C24 dynamic arrays: random histories against a list model, under ASan/UBSan/LSan."""
import os, re
from .. import core, build

RULE = ('A case is one history (random sequence of add/insert/remove/set/swap/sort/search/clear over a new array, '
        'fixed or growing, static or heap, with or without clear callback); after every step the whole array is compared '
        'with a list model. Every history differs by its seed and contains dozens of operations.')
ASSUMPTIONS = ['fixed arrays have a size of at least 1', 'binary search is only asked on arrays sorted by key']


def check(ctx):
    src = os.path.join(core.REPO, 'src')
    exe = build.cc(ctx, os.path.join(ctx.dir, 'xarray'), [os.path.join(core.VERIF, 'harness/xarray.c'), os.path.join(src, 'array.c')],
                   ['-g', '-O1', '-I' + src, '-fno-omit-frame-pointer'] + build.SAN.split())
    env = dict(os.environ, ASAN_OPTIONS='detect_leaks=1', UBSAN_OPTIONS='print_stacktrace=1')
    jobs = ctx.n(160, 2400)
    hist = 40

    def one(i):
        ops = [40, 120, 400, 1500][i % 4]
        cmd = [exe, str(ctx.seed * 100003 + i), str(hist), str(ops)]
        r = core.run_wd(cmd, timeout=60, env=env)
        replay = {'cmd': ' '.join(cmd), 'output.txt': r.out + r.err}
        if r.timeout:
            ctx.violation('hang', 'history does not terminate: ' + ' '.join(cmd), replay)
            return
        m = re.search(r'MISMATCH (\S+) (.*)', r.text)
        rep = core.san_report(r.err)
        if m:
            ctx.violation(m.group(1), 'array differs from the model: %s %s\n%s' % (m.group(1), m.group(2), r.text[-1500:]), replay)
        elif rep:
            ctx.violation(core.san_key(r.err), rep + '\n' + r.etext[:3000], replay)
        elif r.rc != 0:
            ctx.violation('exit', 'harness died: ' + r.brief(), replay)
        else:
            for k, n in re.findall(r'STAT (\w+) (\d+)', r.text):
                ctx.obs(k, int(n))
            for k, n in re.findall(r'KIND (\d+) (\d+)', r.text):
                if int(n):
                    ctx.distinct('operation_kinds', k)
        for h in range(hist):
            ctx.case((i, h))
        ctx.sample(' '.join(cmd[1:]) + ' -> ' + r.text.replace('\n', ' ')[:300])
    core.pmap(one, range(jobs))
    if not ctx.viol and (ctx.counts.get('shrink', 0) == 0 or ctx.counts.get('grow', 0) == 0 or ctx.counts.get('full_refused', 0) == 0):
        raise core.HarnessError('workload did not reach growing, shrinking and full arrays')
