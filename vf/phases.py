"""Phase function expansions behind the handles of the specification."""
import math, os
from .build import VERIF
HERE = os.path.join(VERIF, 'harness')

def hg(g):
    return lambda n, ne: [[(2 * l + 1) * g ** l for l in range(n)]] + [[0.] * n for _ in range(ne - 1)]

def table(rows, mix=1., g=0.5):
    def f(n, ne):
        r = [[(rows[l][e] if l < len(rows) else 0.) for l in range(n)] for e in range(ne)]
        return r
    return f

RAY = [[1, 0, 0, 0, 0, 0], [0, 0, 0, 1.399371, 0, 0], [.4798741, 2.879245, 0, 0, 1.175447, 0]]
def mie_rows():
    rows = []
    for l in open(os.path.join(HERE, 'mie.gc')):
        t = l.split()
        if len(t) == 6:
            rows.append([float(x) for x in t])
    return rows
_M = None
def mie():
    global _M
    if _M is None:
        _M = mie_rows()
    return _M
def blend(w, A, B, n):
    g = lambda T, l, e: T[l][e] if l < len(T) else 0.
    return [[w * g(A, l, e) + (1 - w) * g(B, l, e) for l in range(n)] for e in range(6)]

def coefs(pid, n, ne, norm=True):
    """list of ne lists of n coefficients. pid = base + 10 flavour + 100 m:
    flavour 1 has the first matrix element only, flavour 2 no coupling of the
    last Stokes component; m > 0: all but the first m coefficients are zero"""
    if pid >= 10:
        m, fl, b = pid // 100, pid // 10 % 10, pid % 10
        r = coefs(b, n, ne, norm)
        if fl == 1: r = coefs(b, n, 1, norm) + [[0.] * n for _ in r[1:]]
        if fl == 2 and ne == 6: r[5] = [0.] * n
        if m: r = [[x if l < m else 0. for l, x in enumerate(e)] for e in r]
        return r
    if n <= 0:
        return [[] for _ in range(ne)]
    if pid == 1: rows = [[1, 0, 0, 0, 0, 0]]; r = blend(1, rows, rows, n)
    elif pid == 2: r = blend(1, RAY, RAY, n)
    elif pid == 3: r = blend(1, mie(), RAY, n)
    elif pid == 4: r = blend(.5, mie(), RAY, n)
    elif pid == 5:
        r = blend(.3, mie(), RAY, n)
    elif pid in (6, 7):
        g = .3 if pid == 6 else .75
        if ne == 1: r = hg(g)(n, 1)
        else: r = blend(.8 if pid == 6 else .15, mie(), RAY, n)
    else:
        raise KeyError(pid)
    r = [list(map(float, x)) for x in r[:ne]]
    if not norm:
        r[0][0] = 1.1
    return r

def dcoefs(ids, n, ne):
    """derivative coefficients: per index the set that covers it; 0 is zero.
    set d is 0.1 d (phase d+1 - phase d), whose first coefficient is zero; a
    constant is added so that no coefficient of a covered index is 0"""
    out = [[0.] * n for _ in range(ne)]
    for k in range(n):
        d = ids[k]
        if d > 10:
            one = dcoefs([0] * k + [d - 10], k + 1, ne)
            for e in range(ne): out[e][k] = 2 * one[e][k]
            continue
        if d == 0: continue
        a, b = coefs(d + 1, n, ne), coefs(d, n, ne)
        for e in range(ne):
            out[e][k] = .2 * (a[e][k] - b[e][k])
            if k == 0: out[e][k] = 0.
            elif e == 0 and abs(out[e][k]) < 1e-3: out[e][k] += .003 * d
    return out
