"""Replay generated behaviours, record traces and have TLC judge them."""
import copy, glob, json, os, random, re, shutil, subprocess, tempfile
import numpy as np
from concurrent.futures import ThreadPoolExecutor
from . import concrete as C, tlc, build

SENT = 7.7e77
RTOL = 1e-8
def same(a, b, rtol=RTOL):
    """block by block, relative to the largest value of the block"""
    if set(a) != set(b): return False
    for n in a:
        x, y = a[n], b[n]
        if x.shape != y.shape: return False
        if n.startswith('d'):
            for j in range(x.shape[1]):
                if not blk(x[:, j], y[:, j], rtol): return False
        elif not blk(x, y, rtol): return False
    return True
def blk(x, y, rtol):
    if x.size == 0: return True
    nx, ny = np.isfinite(x), np.isfinite(y)
    if not np.array_equal(nx, ny): return False
    x, y = x[nx], y[ny]
    if x.size == 0: return True
    s = max(np.abs(x).max(), np.abs(y).max())
    return np.abs(x - y).max() <= rtol * s + 1e-13

def lines_of(case):
    """driver lines of one case; setters whose layout depends on earlier
    outcomes assume the outcome the specification predicts is observed"""
    cf, out = {}, ['N 0']
    for e in case:
        op, i = e['op'], e['i']
        if op == 'create':
            cf[i] = C.Cfg(e['c']); out.append(C.cmd_create(i, e['c'], e.get('how', 0)))
        elif op == 'check': out.append(C.cmd_create(i, e['c'], kind='V'))
        elif op == 'destroy': out.append('D %d' % i)
        elif op == 'update': out.append('U %d' % i)
        elif op == 'clear': out.append('K %d' % i)
        elif op == 'snap': out.append('W %d' % i)
        elif op == 'solve': out.append(C.cmd_solve(i, e['r']))
        elif op == 'mem': out.append('M')
        elif op in ('form', 'program', 'threads'): pass
        elif op == 'fd_create': out.append('Y %d %d %s' % (i, len(e['a']), ' '.join(C.fl(x / 2. ** 20) for x in e['a']))); nd0 = len(e['a'])
        elif op == 'fd_solve': out.append('G' + C.cmd_solve(i, e['r'])[1:].replace(' %d ' % i, ' %d %d ' % (i, e['m']), 1))
        elif op == 'fd_snap': out.append('H %d' % i)
        elif op == 'fd_destroy': out.append('Z %d' % i)
        elif 'fd' in e:
            c = copy.copy(cf[i]); c.nd = nd0
            out.append('F' + C.cmd_set(c, i, op, e['a'])[1:])
        elif 'scaled' in e: out.append(C.cmd_scaled(cf[i], i, op, e['scaled']))
        elif 'd' in e: out.append(C.cmd_moved(cf[i], i, op, e['a'], e['d'], e['k']))
        elif op == 'get': out.append('A %d get_%s %s' % (i, e['f'], ' '.join(map(str, e['a']))))
        else:
            out.append(C.cmd_set(cf[i], i, op, e['a']))
            C.track(cf[i], op, e['a'], e.get('ok', True) and ok_guess(cf[i], op, e['a']))
    return out
def ok_guess(cf, op, a):
    if op == 'set_coef_1':
        h = a[1]
        return 0 <= a[0] < cf.nl and h['n'] <= cf.maxc and (h['norm'] or (cf.maxc if h['n'] < 0 else h['n']) <= 1)
    if op == 'set_coef_n':
        return all(0 <= h['n'] <= cf.maxc and (h['norm'] or h['n'] <= 1) for h in a[0])
    return True

def record(case, res, res2=None, strict=False):
    """Merge observations into the events of a case. res: driver answers after the N line"""
    ev, cf, ans = [], {}, []
    for n, e in enumerate(case):
        o = dict(e)
        if any(n >= len(r) or r[n][0] in ('DIED', 'X') for r in (res, res2) if r is not None):
            o['rc'] = 'DIED'; ev.append(o); break
        kind, msg, v, x = res[n]
        if e['op'] == 'get' and kind == 'F': kind = 'E'
        o['rc'] = 'ok' if kind in ('0', 'v') else 'err' if kind == 'E' else kind
        o['msg'] = msg > 0
        i = e['i']
        if e['op'] == 'create':
            cf[i] = C.Cfg(e['c'])
            if kind == '0':
                o['opts'] = C.onames(int(v[0])); o['solvers'] = C.snames(int(v[1]))
            else: o['opts'] = []; o['solvers'] = []
        elif e['op'] == 'check':
            z = lambda x: 'ok' if x == 0 else 'err' if x == C.INT_ERROR else '%g' % x
            o['v'] = [z(x) for x in v[:3]]; o['q'] = [z(x) for x in v[4:7]]; o['msg'] = bool(v[3]); o['qm'] = bool(v[7])
        elif e['op'] == 'snap':
            try: o['sn'] = C.snapshot(cf[i], v)
            except (StopIteration, RuntimeError, IndexError, KeyError, ValueError, OverflowError): o['rc'] = 'DIED'; ev.append(o); break   # the getters contradict each other
        elif e['op'] == 'mem':
            for w in x.split():
                a, b = w.split('=')
                if a in ('live', 'bytes'): o[a] = int(b)
        elif e['op'] == 'solve':
            o['eq'] = []; o['wr'] = True
            if kind == '0':
                a = C.arrays(cf[i], e['r'], v)
                o['wr'] = bool(not any((x == SENT).any() for x in a.values()))
                o['fin'] = bool(all(np.isfinite(x).all() for x in a.values()))
                o['eq'] = [m for m, b in ans if same(a, b)]
                ans.append((n + 1, a))
        if res2 is not None and strict:      # word for word
            a, b = res[n], res2[n]
            o['pf'] = kindof(a) == kindof(b) and (alike(a, b, cf.get(i), e) if kindof(a) != 'E' else True)
        elif res2 is not None and e['op'] in ('create', 'solve', 'get', 'update') :
            o['pf'] = n < len(res2) and alike(res[n], res2[n], cf.get(i), e)
        ev.append(o)
    return ev

def kindof(a): return 'E' if a[0] == 'F' else a[0]
def alike(a, b, cf, e):
    if a[0] != b[0] or len(a[2]) != len(b[2]): return False
    if e['op'] == 'solve': return a[0] != '0' or same(C.arrays(cf, e['r'], a[2]), C.arrays(cf, e['r'], b[2]))
    return bool(np.array_equal(a[2], b[2], equal_nan=True))

def replay(exe, cases, jobs=8, timeout=240, envs=(None,), strict=False):
    """Replay cases in the driver; returns the recorded events per case. An
    environment may come with a driver of its own: (env, exe)"""
    chunks = [list(range(j, len(cases), jobs)) for j in range(jobs)]
    out = [None] * len(cases)
    def one(ix, lines, env):
        env, exe1 = env if isinstance(env, tuple) else (env, exe)
        pending, got = list(ix), {}
        while pending:
            res, rc, _ = C.drive(exe1, [l for c in pending for l in lines[c]], timeout, env)
            pos = 0; done = 0
            for c in pending:
                n = len(lines[c])
                got[c] = res[pos + 1:pos + n]; pos += n; done += 1
                if len(got[c]) < n - 1: break    # the process ended in this case
            pending = pending[done:]
        return got
    def work(ix):
        if not ix: return
        lines = {c: lines_of(cases[c]) for c in ix}
        runs = [one(ix, lines, e) for e in envs]
        for c in ix: out[c] = record(cases[c], *[r[c] for r in runs], strict=strict)
    with ThreadPoolExecutor(jobs) as ex:
        list(ex.map(work, chunks))
    return out

def judge(recs, compare='P01', jobs=8, timeout=600, module='XrtmTrace', extra=''):
    """TLC decides; returns violations (case numbers are indices into recs), statistics, states"""
    chunks = [c for c in (list(range(j, len(recs), jobs)) for j in range(jobs)) if c]
    cfg = 'CONSTANTS Compare = "%s" %s\nINIT Init\nNEXT Next\nVIEW TraceView\nCHECK_DEADLOCK FALSE\nPOSTCONDITION AllConsumed\n' % (compare, extra)
    def work(ix):
        pr, st, out, done = tlc.judge(module, cfg, [recs[c] for c in ix], timeout)
        if not pr or not done: raise tlc.TLCError(out[-3000:])
        v = pr[-1]['viol']
        for x in v: x['case'] = ix[x['case'] - 1]
        return v, pr[-1]['stat'], st
    with ThreadPoolExecutor(jobs) as ex:
        rs = list(ex.map(work, chunks))
    stat = {}
    for r in rs:
        for a, b in r[1].items(): stat[a] = stat.get(a, 0) + b
    return [v for r in rs for v in r[0]], stat, sum(r[2] for r in rs)

GEN = 'CONSTANTS Mode = "%s" Len1 = %d\nINIT Init\nNEXT Next\nCHECK_DEADLOCK FALSE\nINVARIANT ReplayFaithful\n'
def generate(mode, num, length, seed, jobs=8):
    return tlc.simulate_many('XrtmGen', GEN % (mode, length), num, length + 5, seed, jobs)

TSAN = 'exitcode=0:halt_on_error=0:report_signal_unsafe=0:history_size=4'
def parallel(exe, cases, width=6, jobs=2, timeout=240):
    """Cases made alone, and each group of them at the same time in threads of one process. Returns the
    records: the first event of a group's first case tells how often its threads used the same memory"""
    alone = [None] * len(cases)
    groups = [list(range(g, min(g + width, len(cases)))) for g in range(0, len(cases), width)]
    lines = [lines_of(c) for c in cases]
    def one(ix):
        res, rc, _ = C.drive(exe, [l for c in ix for l in lines[c]], timeout, dict(TSAN_OPTIONS=TSAN))
        pos = 0
        for c in ix: alone[c] = res[pos + 1:pos + len(lines[c])]; pos += len(lines[c])
    def together(ix):
        w = tempfile.mkdtemp(prefix='vf_thr_')
        try:
            fs = []
            for c in ix:
                fs.append('%s/%d' % (w, c)); open(fs[-1], 'w').write('\n'.join(lines[c]) + '\n')
            e = dict(os.environ, OPENBLAS_NUM_THREADS='1', OMP_NUM_THREADS='1', TSAN_OPTIONS=TSAN + ':log_path=%s/tsan' % w)
            try: subprocess.run([exe, w + '/unused', str(timeout)] + fs, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, env=e, timeout=timeout + 30)
            except subprocess.TimeoutExpired: pass
            log = ''.join(open(f, errors='replace').read() for f in glob.glob(w + '/tsan*'))
            got = [C.parse(open(f + '.out', 'rb').read(), np.fromfile(f + '.dat')) if os.path.exists(f + '.out') else [] for f in fs]
            return got, log
        finally: shutil.rmtree(w, ignore_errors=True)
    with ThreadPoolExecutor(8) as ex: list(ex.map(one, groups))
    with ThreadPoolExecutor(jobs) as ex: par = list(ex.map(together, groups))
    out, cs = [], []
    for ix, (got, log) in zip(groups, par):
        races = re.findall(r'WARNING: ThreadSanitizer: data race.*?\n(?======)', log, re.S)
        for n, c in enumerate(ix):
            r = record(cases[c], alone[c], got[n][1:], strict=True)
            if len(alone[c]) < len(lines[c]) - 1: continue          # ends the process when made alone
            if n == 0:
                e = dict(op='threads', i=0, rc='ok', races=len(races), report=races[0][:1500] if races else '')
                r.insert(0, e); out.append(r); cs.append([e] + cases[c])
            else: out.append(r); cs.append(cases[c])
    return out, cs
