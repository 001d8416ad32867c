"""Events of the specification <-> commands and answers of harness/driver.c"""
import subprocess, os, tempfile, struct, math
import numpy as np
from . import phases

OPT = ["calc_derivs", "reverse_derivs", "delta_m", "n_t_tms", "four_conv_old", "four_conv_new", "no_azimuthal", "output_at_levels",
  "output_at_taus", "part_sol_classical", "part_sol_greens", "phase_scalar", "phase_matrix_gc", "phase_matrix_lc", "psa", "quad_norm_gaus_leg",
  "quad_doub_gaus_leg", "quad_lobatto", "save_leg_polys", "save_phase_mats", "save_local_r_t", "save_layer_r_t_s", "save_total_r_t_s", "sfi",
  "source_solar", "source_thermal", "stack_reuse_adding", "top_down_adding", "bottom_up_adding", "upwelling_output", "downwelling_output", "vector"]
SOL = ["doub_add", "eig_add", "eig_bvp", "four_stream", "mem_bvp", "pade_add", "single", "six_stream", "sos", "two_os", "two_stream"]
OUT = ["radiance", "radiance_mean", "flux", "flux_divergence"]
KER = ["lambertian", "direct_and_diffuse", "roujean", "li_sparse", "li_dense", "ross_thin", "ross_thick", "hapke", "rahman", "cox_munk", "user_defined"]
NPAR = {"direct_and_diffuse": 4, "li_sparse": 2, "li_dense": 2, "cox_munk": 2, "hapke": 3, "rahman": 3, "user_defined": 4}
DBL_ERROR = -1.7976931348623157e308
INT_ERROR = -2147483647

def omask(s): return sum(1 << OPT.index(x) for x in s)
def smask(s): return sum(1 << SOL.index(x) for x in s)
def outmask(s): return sum(1 << OUT.index(x) for x in s)
def onames(m): return [OPT[i] for i in range(32) if m >> i & 1]
def snames(m): return [SOL[i] for i in range(len(SOL)) if m >> i & 1]

MILLI, DY, MICRO = .001, 1. / 1024., 1e-6
UNIT = dict(doub_d_tau=MICRO, fourier_tol=MICRO, lam=MILLI, planet_r=MILLI, levels_z=MILLI, out_taus=DY, ltau=DY, theta=MILLI,
            phi=MILLI, F=MILLI, b=MILLI, omega=MILLI, kamp=MILLI, kpar=MILLI, d=MILLI)
ARGUNIT = {}
def val(k, u):
    return k / 1024. if u == DY else k / 1e6 if u == MICRO else k / 1000.
def fl(x): return repr(float(x))
def fv(k, u): return fl(val(k, u))

class Cfg:
    def __init__(s, c):
        s.c = c
        s.vec = c['ns'] > 1
        s.ne = 6 if s.vec else 1
        s.nl, s.nd, s.ns, s.nq, s.nu, s.nlev = c['nl'], c['nd'], c['ns'], c['nq'], c['nu'], c['nlev']
        s.ker = list(c['kernels'])
        s.nmu = s.nu if s.nu > 0 else s.nq
        d = {'upwelling_output', 'downwelling_output'} & set(c['opts'])
        s.up = not d or 'upwelling_output' in d
        s.dn = not d or 'downwelling_output' in d
        s.maxc = c['max_coef']
        s.ncoef = [s.maxc] * s.nl     # before they are set the library expects them all

def cmd_create(i, c, how=0, kind='C'):
    ks = [str(KER.index(k)) if k in KER else '99' for k in c['kernels']]
    w = [kind, str(i)] + ([str(how)] if kind == 'C' else []) + [str(omask(c['opts'])), str(smask(c['solvers'])), str(c['max_coef']), str(c['nq']), str(c['ns']), str(c['nd']),
         str(c['nl']), str(c['nth']), str(len(ks)), str(c['nkq'])] + ks + [str(c['nlev']), str(c['nu'])]
    return ' '.join(w)

STEP = 2. ** -10
def cmd_moved(cfg, i, op, a, d, k):
    """A setter call with its values moved by k steps along the seeds d"""
    h = 'A %d %s ' % (i, op)
    g = lambda v, u, s: fl(val(v, u) + k * STEP * s / 1000.)
    u = DY if 'ltau' in op else MILLI
    if op == 'set_coef_n':
        w = h + ' '.join(str(x['n']) for x in a[0])
        for x, ids in zip(a[0], d):
            c, t = phases.coefs(x['id'], x['n'], cfg.ne, x['norm']), phases.dcoefs(ids, x['n'], cfg.ne)
            w += ' ' + mat([[p + k * STEP * q for p, q in zip(r, s)] for r, s in zip(c, t)])
        return w
    if op == 'set_out_taus':
        top, move, out = [0.], [0.], []
        for x, s in zip(a[1], d):
            top.append(top[-1] + val(x, DY)); move.append(move[-1] + float(g(x, DY, s)))
        for t in a[0]:
            t = val(t, DY)
            q = max([i for i in range(len(d)) if top[i] <= t] or [0])
            out.append(move[-1] if t == top[-1] else move[q] + (t - top[q]) / (top[q + 1] - top[q]) * (move[q + 1] - move[q]))
        return h + ' '.join(fl(x) for x in out)
    if op == 'set_kernel_ampfac': return h + '%d %s' % (a[0], g(a[1], u, d))
    if op == 'set_kernel_params_n': return h + '%d %d %s' % (a[0], len(a[1]), ' '.join(g(x, u, s) for x, s in zip(a[1], d)))
    if isinstance(a[0], list): return h + ' '.join(g(x, u, s) for x, s in zip(a[0], d))
    return h + g(a[0], u, d)

def scaled_layer(cfg, s, i):
    """Layer i of a problem with the forward peak taken out explicitly: f = coef[2 nq] / (4 nq + 1),
    chi' = (chi - f (2 l + 1)) / (1 - f), omega' = omega (1 - f) / (1 - omega f), ltau' = ltau (1 - omega f),
    omega'' = omega / (1 - omega f), with their derivatives. kind "dm": chi', omega'; "part": chi', omega' / 16;
    "full": chi, omega'' / 16."""
    h = s['coef'][i]; n = cfg.maxc if h['n'] < 0 else h['n']
    N = 2 * cfg.nq
    ch = np.array(phases.coefs(h['id'], n, cfg.ne, h['norm'])).reshape(cfg.ne, n)
    cl = [np.array(phases.dcoefs(ids[:n], n, cfg.ne)).reshape(cfg.ne, n) for ids in s['coef_l'][i]]
    om = min(val(s['omega'][i], MILLI), 1. - 1e-5); tau = val(s['ltau'][i], DY)
    ol = [val(x, MILLI) for x in s['omega_l'][i]]; tl = [val(x, MILLI) for x in s['ltau_l'][i]]
    f = ch[0][N] / (2. * N + 1.) if n > N else 0.
    fl_ = [c[0][N] / (2. * N + 1.) if n > N else 0. for c in cl]
    a = 1. - om * f
    al = [-x * f - om * y for x, y in zip(ol, fl_)]
    t2 = tau * a; t2l = [x * a + tau * y for x, y in zip(tl, al)]
    if s['kind'] == 'full':
        c2, c2l = ch, cl
        o2 = om / a; o2l = [x / a - om * y / a ** 2 for x, y in zip(ol, al)]
    else:
        m = min(n, N); w = np.array([2. * l + 1. for l in range(m)])
        c2 = ch[:, :m].copy(); c2l = [c[:, :m].copy() for c in cl]
        for e in range(cfg.ne):
            p = w if e < 4 else 0. * w
            if f == 0. and not any(fl_): continue
            num = ch[e][:m] - f * p
            c2[e] = num / (1. - f)
            for c, d, g in zip(c2l, cl, fl_): c[e] = (d[e][:m] - g * p) / (1. - f) + num * g / (1. - f) ** 2
        if m:
            c2[0][0] = ch[0][0]
            for c in c2l: c[0][0] = 0.
        o2 = om * (1. - f) / a
        o2l = [x * (1. - f) / a - om * g / a - om * (1. - f) * y / a ** 2 for x, y, g in zip(ol, al, fl_)]
    if s['kind'] != 'dm': o2 /= 16.; o2l = [x / 16. for x in o2l]
    return c2, o2, t2, c2l, o2l, t2l, a

def cmd_scaled(cfg, i, op, s):
    """A setter call with the values of the scaled problem"""
    h = 'A %d %s ' % (i, op)
    L = [scaled_layer(cfg, s, q) for q in range(cfg.nl)]
    if op == 'set_coef_n':
        cfg.ncoef = [x[0].shape[1] for x in L]
        return h + ' '.join(map(str, cfg.ncoef)) + ' ' + ' '.join(mat(x[0]) for x in L)
    if op == 'set_omega_n': return h + ' '.join(fl(x[1]) for x in L)
    if op == 'set_ltau_n': return h + ' '.join(fl(x[2]) for x in L)
    if op == 'set_coef_l_nn': return h + ' '.join(map(str, cfg.ncoef)) + ' ' + ' '.join(mat(c) for x in L for c in x[3])
    if op == 'set_omega_l_nn': return h + ' '.join(fl(y) for x in L for y in x[4])
    if op == 'set_ltau_l_nn': return h + ' '.join(fl(y) for x in L for y in x[5])
    if op == 'set_out_taus':
        top, new, out = [0.], [0.], []
        for x, t in zip(L, s['ltau']):
            top.append(top[-1] + val(t, DY)); new.append(new[-1] + x[2])
        for t in s['taus']:
            t = val(t, DY)
            if t == top[-1]: out.append(new[-1]); continue
            q = max(j for j in range(cfg.nl) if top[j] <= t)
            out.append(new[q] + (t - top[q]) * L[q][6])
        return h + ' '.join(fl(x) for x in out)
    raise KeyError(op)

U1 = {'set_doub_d_tau': MICRO, 'set_fourier_tol': MICRO}
def mat(rows): return ' '.join(fl(x) for r in rows for x in r)

def cmd_set(cfg, i, op, a):
    """The driver line of one setter call of the specification."""
    h = 'A %d %s ' % (i, op)
    if op in ('set_pade_params',): return h + '%d %d' % tuple(a)
    if op == 'set_sos_params': return h + '%d %s %s' % (a[0], fv(a[1], MILLI), fv(a[2], MICRO))
    if op == 'set_out_levels': return h + ' '.join(map(str, a[0]))
    if op == 'set_out_taus': return h + ' '.join(fv(x, DY) for x in a[0])
    if op in ('set_levels_z', 'set_out_thetas', 'set_levels_b', 'set_g_n'): return h + ' '.join(fv(x, MILLI) for x in a[0])
    if op in ('set_omega_n',): return h + ' '.join(fv(x, MILLI) for x in a[0])
    if op in ('set_ltau_n',): return h + ' '.join(fv(x, DY) for x in a[0])
    if op in ('set_omega_1', 'set_g_1'): return h + '%d %s' % (a[0], fv(a[1], MILLI))
    if op == 'set_ltau_1': return h + '%d %s' % (a[0], fv(a[1], DY))
    if op == 'set_coef_1':
        n = a[1]['n']
        nn = cfg.maxc if n < 0 else n
        # a negative count means all coefficients: the array given must have them all
        if n < 0:
            return h + '%d -1 %s' % (a[0], mat(phases.coefs(a[1]['id'], nn, cfg.ne, a[1]['norm'])))
        return h + '%d %d %s' % (a[0], n, mat(phases.coefs(a[1]['id'], nn, cfg.ne, a[1]['norm'])))
    if op == 'set_coef_n':
        return h + ' '.join(str(x['n']) for x in a[0]) + ' ' + ' '.join(mat(phases.coefs(x['id'], x['n'], cfg.ne, x['norm'])) for x in a[0])
    if op == 'set_kernel_ampfac': return h + '%d %s' % (a[0], fv(a[1], MILLI))
    if op == 'set_kernel_params_1': return h + '%d %d %s' % (a[0], a[1], fv(a[2], MILLI))
    if op == 'set_kernel_params_n': return h + '%d %d %s' % (a[0], len(a[1]), ' '.join(fv(x, MILLI) for x in a[1]))
    if op == 'set_kernel_func': return h + '%d' % a[0]
    if op in ('set_F_iso_top_l_1', 'set_F_iso_bot_l_1', 'set_surface_b_l_1'): return h + '%d %s' % (a[0], fv(a[1], MILLI))
    if op in ('set_F_iso_top_l_n', 'set_F_iso_bot_l_n', 'set_surface_b_l_n'): return h + ' '.join(fv(x, MILLI) for x in a[0])
    if op == 'set_levels_b_l_1': return h + '%d %s' % (a[0], ' '.join(fv(x, MILLI) for x in a[1]))
    if op == 'set_levels_b_l_n':     # the library takes [level][deriv]
        return h + ' '.join(fv(a[0][j][k], MILLI) for k in range(cfg.nl + 1) for j in range(cfg.nd))
    if op in ('set_omega_l_11', 'set_ltau_l_11'): return h + '%d %d %s' % (a[0], a[1], fv(a[2], MILLI))
    if op in ('set_omega_l_n1', 'set_ltau_l_n1', 'set_omega_l_1n', 'set_ltau_l_1n'): return h + '%d %s' % (a[0], ' '.join(fv(x, MILLI) for x in a[1]))
    if op in ('set_omega_l_nn', 'set_ltau_l_nn'): return h + ' '.join(fv(x, MILLI) for r in a[0] for x in r)
    nc = cfg.ncoef
    if op == 'set_coef_l_11':
        n = nc[a[0]] if 0 <= a[0] < cfg.nl else 0
        return h + '%d %d %d %s' % (a[0], a[1], n, mat(phases.dcoefs(a[2], n, cfg.ne)))
    if op == 'set_coef_l_n1':
        return h + '%d ' % a[0] + ' '.join(map(str, nc)) + ' ' + ' '.join(mat(phases.dcoefs(a[1][k], nc[k], cfg.ne)) for k in range(cfg.nl))
    if op == 'set_coef_l_1n':
        n = nc[a[0]] if 0 <= a[0] < cfg.nl else 0
        return h + '%d %d ' % (a[0], n) + ' '.join(mat(phases.dcoefs(v, n, cfg.ne)) for v in a[1])
    if op == 'set_coef_l_nn':
        return h + ' '.join(map(str, nc)) + ' ' + ' '.join(mat(phases.dcoefs(a[0][k][j], nc[k], cfg.ne)) for k in range(cfg.nl) for j in range(cfg.nd))
    if op == 'set_kernel_ampfac_l_1': return h + '%d %d %s' % (a[0], a[1], fv(a[2], MILLI))
    if op == 'set_kernel_ampfac_l_n': return h + '%d %s' % (a[0], ' '.join(fv(x, MILLI) for x in a[1]))
    if op == 'set_kernel_params_l_11': return h + '%d %d %d %s' % (a[0], a[1], a[2], fv(a[3], MILLI))
    if op == 'set_kernel_params_l_1n': return h + '%d %d %d %s' % (a[0], a[1], len(a[2]), ' '.join(fv(x, MILLI) for x in a[2]))
    if op == 'set_kernel_params_l_n1': return h + '%d %d %s' % (a[0], a[1], ' '.join(fv(x, MILLI) for x in a[2]))
    if op == 'set_kernel_params_l_nn':
        n = len(a[1][0]) if a[1] else 0
        return h + '%d %d %s' % (a[0], n, ' '.join(fv(x, MILLI) for r in a[1] for x in r))
    if op in ('set_doub_d_tau', 'set_fourier_tol'): return h + fv(a[0], MICRO)
    if op in ('set_lambda', 'set_planet_r', 'set_F_iso_top', 'set_F_iso_bot', 'set_F_0', 'set_theta_0', 'set_phi_0', 'set_surface_b'): return h + fv(a[0], MILLI)
    raise KeyError(op)

def cmd_solve(i, r):
    how = r.get('how', 0)
    return 'Q %d %d %d %d %d %s' % (i, how, 1 << SOL.index(r['solver']), outmask(r['outs']), r['nphi'], ' '.join(fv(x, MILLI) for u in r['phis'] for x in u))

def track(cfg, op, a, ok):
    """number of coefficients of each layer (needed to lay out coef_l arguments)"""
    if not ok: return
    if op == 'set_coef_1': cfg.ncoef[a[0]] = cfg.maxc if a[1]['n'] < 0 else a[1]['n']
    elif op == 'set_coef_n': cfg.ncoef = [x['n'] for x in a[0]]

def arrays(cfg, r, v):
    """Split the answer of a solve: dict name -> array"""
    L, U, D, P, S = cfg.nlev, cfg.nmu, cfg.nd, max(0, r['nphi']), cfg.ns
    how = r.get('how', 0)
    outs = set(r['outs']) if how == 0 else {1: {'radiance'}, 5: {'radiance'}, 2: {'radiance_mean'}, 3: {'flux'}}[how]
    z, p = {}, 0
    def take(name, *sh):
        nonlocal p
        n = int(np.prod(sh))
        z[name] = v[p:p + n].reshape(sh)
        p += n
    if 'radiance' in outs:
        if cfg.up: take('I+', L, U, P, S)
        if cfg.dn: take('I-', L, U, P, S)
        if cfg.up: take('dI+', L, D, U, P, S)
        if cfg.dn: take('dI-', L, D, U, P, S)
    if 'radiance_mean' in outs:
        if cfg.up: take('m+', L)
        if cfg.dn: take('m-', L)
    if 'flux' in outs:
        if cfg.up: take('f+', L)
        if cfg.dn: take('f-', L)
    assert p == len(v), (p, len(v))
    return z

BADV = -777777777
def dec(v, u, exact=True):
    if v == DBL_ERROR or v == float(INT_ERROR): return []
    if not math.isfinite(v) or abs(v) > 1e12: return [BADV]
    k = int(round(v / u))
    if (val(k, u) == v) or (not exact and abs(val(k, u) - v) < 1e-9): return [k]
    return [BADV]
def dec_omega(v):
    # a single scattering albedo of one is stored as one less the documented threshold
    return [1000] if 1 - 2e-5 < v < 1 else dec(v, MILLI)
def dec1(v, u):
    r = dec(v, u)
    return r[0] if r else -999

_DC = {}
def snapshot(cfg, v):
    """Decode the answer of the driver's W command into the shape of Snap(I)."""
    it = iter(v)
    g = lambda: next(it)
    gi = lambda: int(next(it))
    s = {}
    s['opts'] = onames(gi() & 0xffffffff); s['solvers'] = snames(gi())
    s['counts'] = [gi() for _ in range(6)]      # max_coef nq ns ne nd nl
    nk = gi(); s['nk'] = nk; s['rest'] = [gi() for _ in range(3)]  # nkq nlev nu
    nl, nd, ne = cfg.nl, cfg.nd, cfg.ne
    s['kernels'] = [KER[k] if 0 <= (k := gi()) < len(KER) else '?' for _ in range(len(cfg.ker))]
    s['doub_d_tau'] = dec(g(), MICRO)
    rc, a, m = g(), gi(), gi(); s['pade'] = [] if rc else [[a, m]]
    rc, a, b, c = g(), gi(), g(), g(); s['sos'] = [] if rc else [[a, dec1(b, MILLI), dec1(c, MICRO)]]
    s['fourier_tol'] = dec(g(), MICRO); s['lambda'] = dec(g(), MILLI); s['planet_r'] = dec(g(), MILLI)
    def vec(n, u, exact=True):
        rc = g(); x = [g() for _ in range(n)]
        return [] if rc else [[(dec(t, u, exact) or [-999])[0] for t in x]]
    s['levels_z'] = vec(nl + 1, MILLI)
    rc = g(); x = [gi() for _ in range(cfg.nlev)]; s['out_levels'] = [] if rc else [x]
    s['out_taus'] = vec(cfg.nlev, DY); s['out_thetas'] = vec(cfg.nu, MILLI, False)
    s['F_iso_top'] = dec(g(), MILLI); s['F_iso_bot'] = dec(g(), MILLI)
    p = [(dec1(g(), MILLI), dec1(g(), MILLI)) for _ in range(nd)]
    s['F_iso_top_l'] = [x[0] for x in p]; s['F_iso_bot_l'] = [x[1] for x in p]
    s['F_0'] = dec(g(), MILLI); s['theta_0'] = dec(g(), MILLI, False); s['phi_0'] = dec(g(), MILLI, False)
    s['levels_b'] = vec(nl + 1, MILLI)
    lb = []
    for j in range(nd):
        rc = g(); x = [g() for _ in range(nl + 1)]
        lb.append([-999] * (nl + 1) if rc else [dec1(t, MILLI) for t in x])
    s['levels_b_l'] = lb
    s['surface_b'] = dec(g(), MILLI)
    s['surface_b_l'] = [dec1(g(), MILLI) for _ in range(nd)]
    coef, om, lt, cl, ol, ll = [], [], [], [], [], []
    for i in range(nl):
        nc = gi(); om.append(dec_omega(g())); lt.append(dec(g(), DY))
        if nc > 0 or nc == 0:
            x = np.array([g() for _ in range(ne * nc)]).reshape(ne, nc) if nc > 0 else None
            if nc == 0: ids = []
            else: ids = [pid if nm else -pid for pid in range(1, 8) for nm in (True, False) if np.array_equal(_co(pid, cfg.maxc, ne, nm)[:, :nc], x)]
            h = dict(n=nc, ids=ids)
            coef.append([h])
        else:
            coef.append([])
        c1, o1, l1 = [], [], []
        for j in range(nd):
            o1.append(dec1(g(), MILLI)); l1.append(dec1(g(), MILLI))
            if nc > 0:
                x = np.array([g() for _ in range(ne * nc)]).reshape(ne, nc)
                ids = []
                for k in range(1, nc):
                    f = [d for d in range(6) if np.array_equal(np.array(_dc(d, cfg.maxc, ne))[:, k], x[:, k])]
                    ids.append(f[0] if f else -1)
                if any(x[:, 0] != 0): ids = [-1] * (nc - 1) or [-1]
                c1.append(ids)
            else: c1.append([])
        cl.append(c1); ol.append(o1); ll.append(l1)
    s['coef'], s['omega'], s['ltau'], s['coef_l'], s['omega_l'], s['ltau_l'] = coef, om, lt, cl, ol, ll
    ka, kp, kal, kpl = [], [], [], []
    for k in range(len(cfg.ker)):
        n = NPAR.get(cfg.ker[k], 0)
        ka.append(dec(g(), MILLI)); kp.append([dec(g(), MILLI) for _ in range(n)])
        a, b = [], []
        for j in range(nd):
            a.append(dec1(g(), MILLI)); b.append([dec1(g(), MILLI) for _ in range(n)])
        kal.append(a); kpl.append(b)
    s['kamp'], s['kpar'], s['kamp_l'], s['kpar_l'] = ka, kp, kal, kpl
    left = sum(1 for _ in it)
    assert left == 0, left
    return s

def _co(p, n, ne, nm):
    k = ('c', p, n, ne, nm)
    if k not in _DC:
        _DC[k] = np.array(phases.coefs(p, n, ne, nm))
    return _DC[k]

def _dc(d, n, ne):
    k = (d, n, ne)
    if k not in _DC:
        _DC[k] = phases.dcoefs([d] * n, n, ne)
    return _DC[k]

class Run:
    """Result of a driver run: list of (kind, msgbytes, doubles, extra)"""

def drive(exe, lines, timeout=300, env=None, tmp=None):
    """Run driver commands; returns (list of answers per line, exit status). A
    driver that dies leaves fewer answers than commands."""
    e = dict(os.environ); e.update(OPENBLAS_NUM_THREADS='1', OMP_NUM_THREADS='1'); e.update(env or {})
    fd, out = tempfile.mkstemp(prefix='vf_out_'); os.close(fd)
    try:
        p = subprocess.run([exe, out, str(timeout)], input='\n'.join(lines).encode() + b'\n', stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=e, timeout=timeout + 30)
        data = np.fromfile(out, dtype=np.float64)
    except subprocess.TimeoutExpired:
        return [], 124, ''
    finally:
        os.unlink(out)
    return parse(p.stdout, data), p.returncode, p.stderr.decode(errors='replace')

def parse(out, data):
    res, pos = [], 0
    for l in out.decode(errors='replace').splitlines():
        t = l.split(None, 3)
        if t[0] == 'N':
            res.append(('N', 0, np.zeros(0), '')); continue
        if len(t) < 3 or not t[2].isdigit():
            res.append(('DIED', 0, np.zeros(0), l)); continue
        n = int(t[2])
        res.append((t[0], int(t[1]), data[pos:pos + n], t[3] if len(t) > 3 else '')); pos += n
    return res
