"""Programs of XrtmProgram as text, runs of callxrtm, and what they print."""
import os, shutil, subprocess, tempfile
import numpy as np
from . import concrete as C, phases

def dot(x):   # a number with an exponent needs a decimal point
    m, e, p = x.partition('e')
    return x if not e or '.' in m else m + '.' + e + p
fl = lambda x: dot(C.fl(x))
def num(k, u):
    if u == 'int': return str(k)
    if u == 'step': return fl(k / 1000. * C.STEP)
    if u == 'delta': return fl(k / 2. ** 20)
    return fl(C.val(k, {'milli': C.MILLI, 'dy': C.DY, 'micro': C.MICRO}[u]))

HEAD = 'lambda mr mi dist_type a1 a2 a3 a4 a5 r1 r2 n_int1 n_int2 n_quad norm reff veff gavg vavg ravg rvw cext csca cbak g'.split()
class Text:
    """text of a program; files it refers to are written into the directory d"""
    def __init__(s, e, d):
        s.e, s.d, s.string, s.nf = e, d, e['how'] == 'string', 0
        s.ne = 6 if e['c']['ns'] > 1 else 1
        s.style = e['style']
    def array(s, v, f, depth):
        if depth == 0: return f(v)
        if s.string: return (',' if depth == 1 else '; ').join(s.array(x, f, depth - 1) for x in v)
        sep = ', ' if s.style % 2 else ','
        return '{' + sep.join(s.array(x, f, depth - 1) for x in v) + '}'
    def quote(s, x): return ('"%s"' if s.style % 3 == 0 else "'%s'") % x
    def gc(s, rows):
        s.nf += 1; p = os.path.join(s.d, 'f%d.gc' % s.nf)
        with open(p, 'w') as fp:
            for n in HEAD: fp.write('%-9s = %s\n' % (n, 'none' if n == 'dist_type' else '1' if n.startswith('n_') else '1.'))
            fp.write('%d\n' % len(rows))
            for r in rows: fp.write(' '.join('%.17e' % x for x in r) + '\n')
        return s.quote('gc6:' + p)
    def six(s, m):   # coefficients of a file: six columns whatever is used of them
        return [list(r) + [0.] * (6 - len(r)) for r in zip(*m)]
    def wide(s, m):   # the language has all six elements of a problem that may be polarized
        return [r + [0.] * (6 - len(r)) for r in m] if 'vector' in s.e['c']['opts'] else m
    def leaf(s, u, h):
        if u in ('coef', 'coef1'): return s.wide([list(r) for r in zip(*phases.coefs(h['id'], h['n'], s.ne, h['norm']))])
        if u == 'file': return s.gc(s.six(phases.coefs(h['id'], h['n'], 6 if s.ne == 6 else 1, h['norm'])))
        if u == 'hg': return s.quote('hg:%r' % (.3 if h['id'] == 6 else .75))
        m = [list(r) for r in zip(*phases.dcoefs(h['ids'], h['n'], s.ne))]
        if u.endswith('p'): m = [[x * C.STEP for x in r] for r in m]
        if u in ('dcoef', 'dcoefp'): return s.wide(m)
        if not any(map(any, m)): return s.quote('none')
        return s.gc([list(r) + [0.] * (6 - len(r)) for r in m])
    def value(s, u, v):
        if u in ('names',):
            return (', ' if not s.string else ',').join(s.quote(x) for x in v) if s.string else '(' + ', '.join(s.quote(x) for x in v) + ')'
        if u == 'list': return ', '.join(num(x['k'], x['u']) for x in v)
        if u == 'coef1': return '%d, %s' % (v['n'], s.array(s.leaf(u, v), fl, 2))
        if u in ('coef', 'dcoef', 'dcoefp'):
            deep = 2; w = v
            while isinstance(w, list): deep += 1; w = w[0] if w else None
            def put(x): return [put(y) for y in x] if isinstance(x, list) else s.leaf(u, x)
            return s.array(put(v), fl, deep)
        deep, w = 0, v
        while isinstance(w, list): deep += 1; w = w[0] if w else None
        if u in ('file', 'hg', 'dfile', 'dfilep'): return s.array(v, lambda h: s.leaf(u, h), deep)
        return s.array(v, lambda k: num(k, u), deep)
    def stmt(s, t):
        if t['u'] == 'raw': return t['v']
        ix = ''.join('[%s]' % (':' if k == -1 else k) for k in t['ix'])
        v = s.value(t['u'], t['v'])
        if s.string: return ('-' if s.style % 4 else '') + t['nm'] + ix + ' ' + v
        return t['nm'] + ix + (' = ' if s.style % 2 else '=') + v
    def text(s):
        e = s.e
        h, b = [s.stmt(t) for t in e['head']], [s.stmt(t) for t in e['body']]
        if s.string: return ' '.join(h) + (' :: ' if e['sp'] != 'nosep' else ' ') + ' '.join(b)
        if s.style % 5 == 0: h.insert(1, '// a comment: n_quad = 7'); b.append('/* omega = {0.} */')
        sep = ' ' if s.style % 5 == 1 else '\n'
        return sep.join(h + b) + '\n'

def args_of(e, text, path):
    a = []
    for f in e['flags']: a += f.split()
    inp = {'file': ['-input_file', path + ('.none' if e['sp'] == 'missing' else '')], 'stdin': [], 'string': ['-input_string', text]}[e['how']]
    if e['phis'] and (any(e['phis']) or len(e['phis']) > 1 or e['style'] % 2): a += ['-out_phis', ','.join(C.fv(x, C.MILLI) for x in e['phis'])]
    a = inp + a if e['style'] % 2 else a + inp
    return a + (['extra'] if e['sp'] == 'extra' else [])

def run(exe, e, timeout=60):
    """(exit status, standard output, length of standard error, the text)"""
    d = tempfile.mkdtemp(prefix='vf_prog_')
    try:
        t = Text(e, d).text(); p = os.path.join(d, 'in.xif')
        open(p, 'w').write(t)
        env = dict(os.environ, OPENBLAS_NUM_THREADS='1', OMP_NUM_THREADS='1')
        with open(p) as fi, open(os.devnull) as no:
            try: r = subprocess.run([exe] + args_of(e, t, p), stdin=fi if e['how'] == 'stdin' else no, stdout=subprocess.PIPE, stderr=subprocess.PIPE, cwd=d, env=env, timeout=timeout)
            except subprocess.TimeoutExpired: return 'timeout', '', 0, t
            except OSError as x: return 'oserror %s' % x, '', 0, t
        return r.returncode, r.stdout.decode(errors='replace'), len(r.stderr), t
    finally:
        shutil.rmtree(d, ignore_errors=True)

def parse(e, out):
    """tables: (rows of coordinates, blocks, depths)"""
    cf = C.Cfg(e['c']); nd = e['nd']; r = e['r']
    parts = [[l for l in p.splitlines()] for p in out.split('\n\n') if p.strip()]
    names = [n for n in ('radiance', 'radiance_mean', 'flux') if n in r['outs']]
    if len(parts) != len(names): return None
    taus = 'output_at_taus' in e['c']['opts']
    ds = (['+'] if cf.up else []) + (['-'] if cf.dn else [])
    z, rows, at = {}, [], []
    def depth(s): return round(float(s) * 1024) if taus else int(s)
    for n, p in zip(names, parts):
        if not p[0].startswith('tau' if taus else 'level'): return None
        k0 = 4 if n == 'radiance' else 1
        vals, heads = [], []
        for l in p[1:]:
            w = [14] * k0 if k0 == 1 else [14, 14, 14, 10]
            c, q = [], 0
            for x in w: c.append(l[q:q + x]); q += x
            v = [l[i:i + 14] for i in range(q, len(l), 14)]
            if len(v) != len(ds) * (1 + nd): return None
            vals.append([float(x) for x in v]); heads.append(c)
        if n == 'radiance':
            rows = [[depth(c[0]), round(float(c[1]) * 1000) if cf.nu > 0 else -1, round(float(c[2]) * 1000), int(c[3])] for c in heads]
            sh = (cf.nlev, cf.nmu, r['nphi'], cf.ns)
            if len(vals) != int(np.prod(sh)): return None
            A = np.array(vals).reshape(sh + (-1,))
            for i, d in enumerate(ds):
                z['I' + d] = A[..., i]
                if nd: z['dI' + d] = np.stack([A[..., len(ds) * (1 + j) + i] for j in range(nd)], axis=1)
        else:
            if len(vals) != cf.nlev: return None
            at.append([depth(c[0]) for c in heads])
            for i, d in enumerate(ds): z[('m' if n == 'radiance_mean' else 'f') + d] = np.array(vals)[:, i]
    return rows, z, at

def observe(e, o):
    """(the recorded event, the blocks printed or None)"""
    rc, out, nerr, text = o
    ev = dict(op='program', sv=e['r']['solver'], ok=e['ok'], rc=str(rc), msg=bool(out) or nerr > 0, want=e['rows'], wat=[e['at']] * len(set(e['r']['outs']) - {'radiance'}),
              table=any(l.startswith(('level  ', 'tau  ')) for l in out.splitlines()), parsed=False, rows=[], at=[])
    if rc == 0 and e['ok']:
        try: p = parse(e, out)
        except ValueError: p = None
        if p: ev.update(parsed=True, rows=p[0], at=p[2]); return ev, p[1]
    return ev, None
