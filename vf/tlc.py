"""Running TLC: simulation to generate behaviours, checking to judge them."""
import json, os, re, subprocess, tempfile, shutil
from concurrent.futures import ThreadPoolExecutor
from .build import VERIF
SPEC = os.path.join(VERIF, 'spec')
JAR = '/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar'

class TLCError(Exception):
    pass

def run(module, cfg_text, args=(), env=None, timeout=850, xmx='3g', files=None, gc='-XX:+UseSerialGC'):
    """Run TLC on spec/<module>.tla with the given configuration text; returns stdout."""
    w = tempfile.mkdtemp(prefix='vf_tlc_')
    try:
        for f in os.listdir(SPEC):
            if f.endswith('.tla'):
                os.symlink(os.path.join(SPEC, f), os.path.join(w, f))
        open(os.path.join(w, 'm.cfg'), 'w').write(cfg_text)
        for n, t in (files or {}).items():
            open(os.path.join(w, n), 'w').write(t)
        e = dict(os.environ)
        e.update(env or {})
        cmd = ['java', gc, '-Xss64m', '-Xmx' + xmx, '-Djava.io.tmpdir=' + w, '-cp', JAR, 'tlc2.TLC', '-metadir', w + '/states', '-config', 'm.cfg'] + list(args) + [module + '.tla']
        p = subprocess.run(cmd, cwd=w, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
        return p.returncode, p.stdout.decode(errors='replace')
    finally:
        shutil.rmtree(w, ignore_errors=True)

def printed(out):
    """JSON values printed with PrintT(ToJson(..))"""
    r = []
    for l in out.splitlines():
        if l.startswith('"') and l.endswith('"'):
            try:
                r.append(json.loads(json.loads(l)))
            except ValueError:
                pass
    return r

def simulate(module, cfg, num, depth, seed, timeout=600, invariants=True):
    rc, out = run(module, cfg, ['-workers', '1', '-simulate', 'num=%d' % num, '-depth', str(depth), '-seed', str(seed)], timeout=timeout)
    if 'Error:' in out or rc not in (0,):
        raise TLCError('TLC simulation of %s failed (%d):\n%s' % (module, rc, '\n'.join(l[:300] for l in out[out.find('Error'):].splitlines() if not l.startswith('"'))[:1500]))
    m = re.search(r'The number of states generated: (\d+)', out)
    return printed(out), int(m.group(1)) if m else 0

def simulate_many(module, cfg, num, depth, seed, jobs=8, timeout=600):
    """num behaviours split over parallel TLC runs with derived seeds."""
    per = max(1, (num + jobs - 1) // jobs)
    with ThreadPoolExecutor(jobs) as ex:
        rs = list(ex.map(lambda k: simulate(module, cfg, per, depth, seed * 1000 + k, timeout), range(jobs)))
    return [h for r in rs for h in r[0]], sum(r[1] for r in rs)

def judge(module, cfg, trace, timeout=600, xmx='3g'):
    """Check a trace (any JSON value) with spec/<module>; the module reads trace.json.
    Returns (list of printed JSON values, states generated, raw output)."""
    rc, out = run(module, cfg, ['-workers', '1'], timeout=timeout, xmx=xmx, files={'trace.json': json.dumps(trace)})
    m = re.search(r'(\d+) states generated, (\d+) distinct', out)
    done = 'Model checking completed. No error' in out
    inv = 'is violated' in out
    if not done and not inv:
        raise TLCError('TLC could not judge with %s (%d):\n%s' % (module, rc, '\n'.join(l[:400] for l in out[out.find('Error'):].splitlines())[:3000]))
    return printed(out), int(m.group(1)) if m else 0, out, done

def parse_all():
    """SANY accepts every module."""
    bad = 0
    for f in sorted(os.listdir(SPEC)):
        if f.endswith('.tla'):
            p = subprocess.run(['java', '-cp', JAR, 'tla2sany.SANY', f], cwd=SPEC, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
            ok = p.returncode == 0 and b'rror' not in p.stdout.replace(b'Semantic errors:', b'rror')
            print(f, 'ok' if ok else p.stdout.decode(errors='replace')[-1500:])
            bad |= not ok
    return int(bad)
