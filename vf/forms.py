"""Evaluate the linear forms of XrtmEquiv on the answers of the library."""
import copy, math, os
import numpy as np
from concurrent.futures import ThreadPoolExecutor
from . import concrete as C, phases, traces, tlc, program, build

DIMS = {'I': ('lv', 'mu', 'ph', 'st'), 'dI': ('lv', 'dv', 'mu', 'ph', 'st'), 'm': ('lv',), 'f': ('lv',)}
def factor(t):
    x = t['c'][0] / t['c'][1]
    for f in t['f']:
        if f[0] == 'exp': x *= math.exp(-f[1] / 1024. / math.cos(math.radians(f[2] / 1000.)))
        elif f[0] == 'cos': x *= math.cos(math.radians(f[1] / 1000.))
        elif f[0] == 'pi': x *= math.pi
        elif f[0] == '1/pi': x /= math.pi
        else: raise KeyError(f[0])
    return x
def pick(A, b, t):
    """(selected array, whole array but for the derivative column)"""
    dims = DIMS[b[:-1]]
    full = A
    for ax, d in enumerate(dims):
        s = t[d]
        if s:
            A = np.take(A, s, axis=ax)
            if d == 'dv': full = np.take(full, s, axis=ax)
    return A, full
def centi(x):
    """centi-decades: 100 log10"""
    if not np.isfinite(x): return 9999
    if x <= 0: return -9999
    return int(math.ceil(100 * math.log10(x)))

def evaluate(form, sols, bs=None):
    """residual of a form over its blocks: (centi-decades, block); None when an answer is missing"""
    worst, wb, wi = -9999, '', 0.
    for b in sorted(form['bs'] if bs is None else bs):
        tot, scale = None, 0.
        for q, t in enumerate(form['t']):
            if t['n'] == 0:
                v, full = np.array(factor(t)), np.array(1.)
            else:
                z = sols[t['n'] - 1]
                if z is None: return None
                bb = t.get('b') or (b[1:] if t['strip'] else b)
                if bb not in z: return None
                v, full = pick(z[bb], bb, t)
                if not t['strip'] and b.startswith('d') and any(x['strip'] for x in form['t']): v, full = v[:, 0], full[:, 0]
                v = factor(t) * v
            tot = v if tot is None else tot + v
            m = np.abs(full).max() if full.size else 0.
            if not form['sc']: scale = max(scale, abs(factor(t)) * m)
            else:
                for i, n, d in form['sc']:
                    if i == q + 1: scale = max(scale, abs(factor(t)) * m * n / d)
        if not np.isfinite(tot).all(): return 9999, b
        x = float(np.abs(tot).max()) if form['rel'] == 'eq' else float(max(0., -np.min(tot)))
        r = centi(x / (scale + 1e-13) if x > (1e-9 if b.startswith('d') else 1e-12) else 0.)   # cancellation leaves rounding errors
        if r > worst: worst, wb = r, b
    return worst, wb

def answers(case, res, progs=()):
    """per solve: its blocks, or None; per event what happened"""
    cf, sols, ev = None, [], []
    n, progs = 0, list(progs)
    for e in case:
        if e['op'] == 'form': continue
        if e['op'] == 'program':
            o, z = program.observe(e, progs.pop(0)); sols.append(z); ev.append(o); continue
        a = res[n] if n < len(res) else ('DIED', 0, np.zeros(0), '')
        n += 1
        if e['op'] == 'create': cf = C.Cfg(e['c'])
        if e['op'] == 'solve':
            sols.append(C.arrays(cf, e['r'], a[2]) if a[0] == '0' else None)
        elif e['op'] == 'fd_create': fd = copy.copy(cf); fd.nd = len(e['a'])
        elif e['op'] == 'fd_solve':
            sols.append(C.arrays(fd, dict(e['r'], how=1), a[2]) if a[0] == '0' else None)
        elif e['op'] == 'fd_snap':
            ev.append(fd_got(fd, e, a[2])); continue
        elif e['op'].startswith('set_coef_') and 'a' in e: C.track(cf, e['op'], e['a'], True)
        ev.append(a[0])
    return sols, ev

def fd_got(cf, e, v):
    """what the getters of a finite difference model say, as the numbers of the specification"""
    v = list(v); n, nn = len(e['want']), cf.nd
    g = [int(x) if i == 0 else round(x * 2 ** 20) if i <= nn else round(x * 1024 * 1000) for i, x in enumerate(v[:n])]
    p, got = n, []
    for i in range(cf.nl):
        row = []
        for j in range(nn):
            ids = e['wantc'][i][j][:cf.ncoef[i]]
            t = np.array(phases.dcoefs(ids, cf.ncoef[i], cf.ne)).ravel() / 1024.
            w = np.array(v[p:p + t.size]); p += t.size
            row.append(w.size == t.size and bool(np.all(w == t)))
        got.append(row)
    return dict(got=g, gotc=got, full=p == len(v))

def record(case, res, progs=()):
    """The trace of a case: calls with what came back, forms with their residuals"""
    sols, ev = answers(case, res, progs)
    out, n = [], 0
    for e in case:
        if e['op'] == 'form':
            # values and derivatives apart
            for which, bs in (('v', [b for b in e['bs'] if b[0] != 'd']), ('d', [b for b in e['bs'] if b[0] == 'd'])):
                if not bs: continue
                v = evaluate(e, sols, bs)
                out.append(dict(op='form', p=e['p'], cls=e['cls'], svs=e['svs'], known=e['known'][which], res=9999 if v is None else v[0], b='' if v is None else v[1], have=v is not None))
        else:
            k = ev[n]; n += 1
            if e['op'] == 'program': out.append(k); continue
            if e['op'] == 'fd_snap':
                out.append(dict(op='fd_snap', p='P23', want=e['want'], **k)); continue
            rc = 'ok' if k in ('0', 'v', 'F') else 'err' if k == 'E' else k
            if e['op'] in ('solve', 'fd_solve', 'create') or rc != 'ok': out.append(dict(op=e['op'], rc=rc, sv=e['r']['solver'] if e['op'] in ('solve', 'fd_solve') else ''))
    return out

def replay(exe, cases, jobs=8, timeout=240):
    out = [None] * len(cases)
    progs = {}
    todo = [(c, e) for c, case in enumerate(cases) for e in case if e['op'] == 'program']
    if todo:
        call = os.path.join(build.tree(targets=('src', 'misc', 'utils')), 'utils', 'callxrtm')
        with ThreadPoolExecutor(jobs) as ex:
            for (c, e), o in zip(todo, ex.map(lambda x: program.run(call, x[1]), todo)): progs.setdefault(c, []).append(o)
    def work(ix):
        pending = list(ix)
        lines = {c: traces.lines_of(cases[c]) for c in ix}
        while pending:
            res, rc, _ = C.drive(exe, [l for c in pending for l in lines[c]], timeout)
            pos = done = 0
            for c in pending:
                n = len(lines[c]); got = res[pos + 1:pos + n]; pos += n; done += 1
                out[c] = record(cases[c], got, progs.get(c, ()))
                if len(got) < n - 1: break
            pending = pending[done:]
    with ThreadPoolExecutor(jobs) as ex:
        list(ex.map(work, [list(range(j, len(cases), jobs)) for j in range(jobs)]))
    return out

CFG = 'INIT Init\nNEXT Next\nCHECK_DEADLOCK FALSE\n'
def judge(recs, jobs=4):
    chunks = [c for c in (list(range(j, len(recs), jobs)) for j in range(jobs)) if c]
    def work(ix):
        pr, st, out, done = tlc.judge('XrtmForms', CFG, [recs[c] for c in ix])
        if not pr or not done: raise tlc.TLCError(out[-3000:])
        v = pr[-1]['viol']
        for x in v: x['case'] = ix[x['case'] - 1]
        return v, pr[-1]['stat'], st
    with ThreadPoolExecutor(jobs) as ex:
        rs = list(ex.map(work, chunks))
    stat = {}
    for r in rs:
        for a, b in r[1].items(): stat[a] = stat.get(a, 0) + b
    return [v for r in rs for v in r[0]], stat, sum(r[2] for r in rs)

GEN = 'CONSTANTS Mode = "%s" Len1 = 1\nINIT InitE\nNEXT NextE\nCHECK_DEADLOCK FALSE\n'
def generate(mode, num, seed, jobs=8):
    cases, st = tlc.simulate_many('XrtmEquiv', GEN % mode, num, 6, seed, jobs)
    return [c for c in cases if c], st
