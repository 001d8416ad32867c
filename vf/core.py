"""A check: collects violations and coverage, writes the evidence file."""
import json, os, sys, time, traceback
from .build import VERIF
EVID = os.path.join(VERIF, 'evidence')

def known_findings(prop):
    """name -> description of the recorded findings of a property"""
    r = {}
    for l in open(os.path.join(VERIF, 'known_findings.txt')):
        t = l.split(None, 3)
        if len(t) == 4 and t[0] == 'known:' and t[1] == 'property=' + prop:
            r[t[2].split('=', 1)[1]] = t[3].strip()
    return r

class Check:
    def __init__(s, prop, tier):
        s.prop, s.tier = prop, tier
        s.seed = int(os.environ.get('VERIF_SEED', '1') or 1)
        s.t0 = time.time()
        s.viol, s.cov, s.samples, s.known = [], {}, [], {}
        s.level = 'model_checking'
        s.listed = known_findings(prop)
        s.assume = []
        os.makedirs(EVID, exist_ok=True)
    thorough = property(lambda s: s.tier == 'thorough')
    def n(s, quick, thorough): return thorough if s.thorough else quick
    def log(s, *a):
        print('[%6.1f]' % (time.time() - s.t0), *a, flush=True)
    def add(s, **k):
        for a, b in k.items():
            s.cov[a] = s.cov.get(a, 0) + b
    def sample(s, x):
        if len(s.samples) < 5: s.samples.append(x)
    def violation(s, why, replay, known=''):
        if known and known in s.listed:
            s.known[known] = s.known.get(known, 0) + 1
            return
        s.viol.append(dict(why=why, replay=replay))
    def finish(s):
        ev = dict(property=s.prop, tier=s.tier, seed=s.seed, level=s.level, wall_s=round(time.time() - s.t0, 1))
        c = dict(s.cov)
        if s.level == 'model_checking':
            for k in ('states', 'transitions', 'traces_validated_against_impl'): c.setdefault(k, 0)
        c['samples'] = s.samples or ['none']
        if s.known: c['known_findings_seen'] = s.known
        ev['coverage'] = c
        if s.assume: ev['assumptions'] = s.assume
        ev['violations'] = len(s.viol)
        for k, d in s.listed.items():
            print('KNOWN-FINDING: property=%s %s: %s (seen %d times in this run)' % (s.prop, k, d, s.known.get(k, 0)))
        for n, v in enumerate(s.viol[:5]):
            p = os.path.join(EVID, 'replay-%s-%d.json' % (s.prop, n))
            json.dump(v, open(p, 'w'), indent=1, default=str)
            print('VIOLATION property=%s replay=%s' % (s.prop, p))
            print('  ' + str(v['why'])[:600])
        json.dump(ev, open(os.path.join(EVID, s.prop + '.json'), 'w'), indent=1, default=str)
        print('%s %s: %d violations, %s, %.1f s' % (s.prop, s.tier, len(s.viol), {k: v for k, v in c.items() if k not in ('samples', 'rule')}, time.time() - s.t0))
        return 1 if s.viol else 0
