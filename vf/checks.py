"""The checks, one per property."""
import json, os, random, subprocess
from concurrent.futures import ThreadPoolExecutor
from . import build, traces, tlc, forms, concrete as C

def history(c, mode, num, length, compare='P01', exe=None, props=None, seed=0):
    """Generate behaviours with TLC, replay them, have TLC judge the records."""
    exe = exe or build.driver()
    c.log('built', exe)
    cases, gs = traces.generate(mode, num, length, c.seed + seed)
    c.log('generated', len(cases), 'behaviours of', sum(map(len, cases)), 'events')
    judged(c, exe, cases, compare, props, mode)
    c.add(states=gs, transitions=sum(map(len, cases)))

def judged(c, exe, cases, compare='P01', props=None, mode='', envs=(None,), strict=False, recs=None):
    recs = recs or traces.replay(exe, cases, envs=envs, strict=strict)
    c.log('replayed')
    viol, stat, st = traces.judge(recs, compare)
    c.log('judged', stat)
    c.add(states=st, traces_validated_against_impl=len(recs))
    for k, v in stat.items(): c.add(**{'events_' + k: v})
    if recs:
        r = recs[0]
        c.sample(dict(mode=mode, events=len(r), first=[trim(e) for e in r[:2]], last=[trim(e) for e in r[-4:-1]]))
    other = {}
    for v in viol:
        if v['property'] in (props or (c.prop,)):
            case = cases[v['case']][:v['line']]
            rec = recs[v['case']]
            c.violation('%s (case %d line %d): %s' % (v['property'], v['case'], v['line'], v['why']),
                        dict(event=trim(rec[v['line'] - 1]), create=[e for e in case if e['op'] == 'create'][-1:],
                             driver=traces.lines_of(case), case=case), v.get('known', ''))
        else:
            other[v['property']] = other.get(v['property'], 0) + 1
    if other: c.log('other properties:', other)

def trim(e):
    return {k: e[k] for k in e if k not in ('sn',)}

def p01(c):
    history(c, 'history', c.n(360, 3000), 60)
    history(c, 'again', c.n(360, 3000), 24, seed=20)
def p02(c):
    history(c, 'save', c.n(360, 3000), 60, 'P02')
    history(c, 'saved', c.n(560, 4000), 36, 'P02', seed=20)
def p03(c): history(c, 'getters', c.n(480, 3000), 60)
def p04(c): history(c, 'reject', c.n(480, 3000), 60, 'P04')
def p05(c): history(c, 'reject', c.n(560, 4000), 60, 'P05', seed=50)
CFG = 'CONSTANTS Part = "%s" Num = %d\nINIT %s\nNEXT %s\nINVARIANT Emit\nCHECK_DEADLOCK FALSE\n'
def configurations(c, num, parts):
    """configurations to ask for, legal or not, with what the specification says of them"""
    jobs = [('F1', 0, 0), ('F2', 0, 0), ('F3', 0, 0)] + [('random', num, k) for k in range(parts)]
    def gen(j):
        part, num, k = j
        if part == 'random':
            pr, st = tlc.simulate('XrtmCfg', CFG % (part, num, 'InitR', 'NextR'), 1, num + 2, c.seed * 100 + k)
        else:
            rc, out = tlc.run('XrtmCfg', CFG % (part, 0, 'InitF', 'Stop'), ['-workers', '1'])
            if 'No error' not in out: raise tlc.TLCError(out[-2000:])
            pr = tlc.printed(out)
            st = len(pr)
        return part, pr, st
    r, seen = [], set()
    with ThreadPoolExecutor(8) as ex:
        for part, pr, st in ex.map(gen, jobs):
            c.log(part, len(pr))
            c.add(states=st)
            for p in pr:
                key = json.dumps([{k: (sorted(v) if k in ('opts', 'solvers') else v) for k, v in p['c'].items()}], sort_keys=True)
                if key not in seen: seen.add(key); r.append(p)
    return r
def p06(c):
    exe = build.driver()
    cases = []
    for p in configurations(c, c.n(2500, 20000), c.n(3, 8)):
        n = len(cases) % 2
        r = dict(p['c'], opts=p['o'])
        case = [dict(op='create', i=0, c=p['c'], how=n)]
        if r['nl'] > 0 and r['nq'] > 0 and r['nd'] >= 0: case.append(dict(op='check', i=1, c=r))
        cases.append(case)
    c.add(transitions=sum(map(len, cases)))
    # cases of many configurations each, to judge them in long traces
    rnd = random.Random(c.seed); rnd.shuffle(cases)
    packed = [[e for x in cases[k:k + 40] for e in x] for k in range(0, len(cases), 40)]
    c.cov['distinct_requests'] = len(cases)
    judged(c, exe, packed, 'P06', mode='configurations')

def p07(c):
    history(c, 'complete', c.n(400, 3000), 10, 'P07')
    history(c, 'reject', c.n(160, 2000), 60, 'P07', seed=20)
def p08(c):
    history(c, 'multi', c.n(320, 3000), 90, 'P08')
    # calls on different instances at the same time, under a detector of unordered accesses
    f = '-g -O1 -fsanitize=thread'
    exe = build.driver('tsan', extra='CCFLAGS += %s\nLDFLAGS += -fsanitize=thread' % f, cflags=f, wrap=False)
    c.log('built with detection of races')
    cases = []
    for mode, num, length in (('history', c.n(72, 900), 60), ('complete', c.n(72, 900), 10)):
        cs, gs = traces.generate(mode, num, length, c.seed + 8)
        cases += cs; c.add(states=gs, transitions=sum(map(len, cs)))
    random.Random(c.seed).shuffle(cases)
    recs, cases = traces.parallel(exe, cases)
    c.cov['histories_in_threads'] = len(recs)
    judged(c, exe, cases, 'threads', mode='threads', recs=recs)

def asan():
    # fresh memory and automatic variables hold a pattern; anything out of bounds ends the process
    f = '-g -O1 -fsanitize=address,bounds -fno-sanitize-recover=all -ftrivial-auto-var-init=pattern'
    return build.driver('asan', extra='CCFLAGS += %s\nLDFLAGS += -fsanitize=address,bounds' % f, cflags=f, wrap=False)
ASAN = dict(ASAN_OPTIONS='detect_leaks=0:malloc_fill_byte=255:max_malloc_fill_size=1000000000:detect_stack_use_after_return=1')
def known_cases(prop, names):
    """dedicated cases of recorded findings"""
    r = []
    for n in names:
        f = os.path.join(build.VERIF, 'known', n + '.json')
        if os.path.exists(f): r.append(json.load(open(f)))
    return r
def p09(c):
    exe = build.driver(); c.log('built')
    sane = asan(); c.log('built with address checks')
    envs = ({'VF_FILL': '165'}, (ASAN, sane))
    with ThreadPoolExecutor(2) as ex:
        a = ex.submit(traces.generate, 'lifecycle', c.n(280, 3000), 25, c.seed, 5)
        b = ex.submit(traces.generate, 'reject', c.n(120, 1000), 60, c.seed + 70, 3)
        (cases, gs), (rej, gs2) = a.result(), b.result()
    c.add(states=gs + gs2, transitions=sum(map(len, cases)) + sum(map(len, rej)))
    c.log('generated', len(cases), len(rej))
    judged(c, exe, cases, 'P09', mode='lifecycle', envs=envs)
    judged(c, exe, rej, 'P09', mode='reject', envs=envs)
    # what is asked for and refused, or made and destroyed at once, leaves nothing behind
    made = []
    for n, p in enumerate(configurations(c, c.n(600, 6000), c.n(1, 6))):
        made.append([dict(op='create', i=0, c=p['c'], how=n % 2)] + ([dict(op='destroy', i=0)] if p['ok'] else []) + [dict(op='mem', i=0)])
    random.Random(c.seed).shuffle(made)
    packed = [[e for x in made[k:k + 40] for e in x] for k in range(0, len(made), 40)]
    c.add(transitions=sum(map(len, made)))
    c.cov['configurations_made_or_refused'] = len(made)
    judged(c, exe, packed, 'P09', mode='configurations', envs=envs)
    for case in known_cases('P09', ['stack_reuse', 'few_stream_no_solar', 'few_stream_unsupported']):
        judged(c, exe, [case], 'P09', mode='known', envs=envs)

def equiv(c, mode, num, seed=0, exe=None):
    """Related problems: cases and forms from XrtmEquiv, answers of the library, judged by XrtmForms."""
    exe = exe or build.driver(); c.log('built')
    cases, gs = forms.generate(mode, num, c.seed + seed)
    c.log('generated', len(cases), 'cases of', sum(map(len, cases)), 'events')
    recs = forms.replay(exe, cases)
    c.log('replayed')
    viol, stat, st = forms.judge(recs)
    c.log('judged', stat)
    c.add(states=gs + st, transitions=sum(map(len, cases)), traces_validated_against_impl=len(recs), **stat)
    fam = {}
    for r in recs:
        for e in r:
            if e['op'] == 'form' and e['have']: k = '%s %s' % (e['cls'], '/'.join(e['svs'])); fam[k] = fam.get(k, 0) + 1
    c.cov['forms_by_class'] = dict(sorted(fam.items()))
    if recs: c.sample(dict(mode=mode, create=cases[0][0]['c'], judged=recs[0][:6]))
    ended = set()
    for v in viol:
        if v['case'] in ended: continue
        if 'DIED' in v['why'] or ' X' in v['why']: ended.add(v['case'])   # what follows could not run
        case = cases[v['case']]
        c.violation('%s (case %d): %s' % (mode, v['case'], v['why']),
                    dict(judged=recs[v['case']][v['line'] - 1], forms=[e for e in case if e['op'] == 'form'],
                         driver=traces.lines_of([e for e in case if e['op'] != 'form']), case=case), v['known'])
def eq(mode, quick, thorough, seed=0): return lambda c: equiv(c, mode, c.n(quick, thorough), seed)

def whole_counts(case):
    """the interfaces of other languages size arrays by the counts given: no count "all" (-1)"""
    for n, e in enumerate(case):
        if e['op'] == 'set_coef_1' and e['a'][1]['n'] < 0 or e['op'] == 'set_coef_n' and any(h['n'] < 0 for h in e['a'][0]): return case[:n]
    return case
def p22(c):
    ref = build.driver()
    for k, lang in enumerate(('cpp', 'f77', 'f90', 'py')):
        exe = build.binding_driver(lang); c.log(lang, 'built')
        jobs = (('history', c.n(24, 600)), ('getters', c.n(24, 600)), ('reject', c.n(40, 800))) + ((('derivs', 400), ('multi', 200)) if c.thorough else ())
        for mode, num in jobs:
            cases, gs = traces.generate(mode, num, 60, c.seed * 10 + k)
            c.add(states=gs, transitions=sum(map(len, cases)))
            judged(c, exe, [x for x in map(whole_counts, cases) if x], 'P22', mode='%s %s' % (lang, mode), envs=(None, (None, ref)), strict=True)
        if lang != 'py': equiv(c, 'P23', c.n(24, 300), 10 + k, exe)     # no finite differences in Python

MASKF = {'index_to_mask', 'name_to_mask', 'name_list_to_mask', 'value_list_to_mask'}
def p20(c):
    exe = build.driver(src='names.c', wrap=False, cflags='-g -O1 -fsanitize=address')
    rc, out = tlc.run('XrtmNames', 'CONSTANTS Part = "gen"\nINIT Init\nNEXT Next\nINVARIANT Emit\nCHECK_DEADLOCK FALSE\n', ['-workers', '1', '-seed', str(c.seed)])
    if 'No error' not in out: raise tlc.TLCError(out[-2000:])
    qs = [q for q in tlc.printed(out) if 't' in q]
    rnd = random.Random(c.seed); rnd.shuffle(qs)
    c.log(len(qs), 'queries')
    m = lambda bits: '0x%x' % sum(1 << b for b in bits)
    def arg(q):
        f, a = q['f'], q['a']
        if f in ('mask_to_index', 'mask_to_name', 'mask_to_index_list', 'mask_to_name_list', 'mask_to_value_list', 'short_lists'): return m(a)
        if f == 'name_list_to_mask': return rnd.choice([', ', ',', ' ', ' , ']).join(a)
        if f == 'value_list_to_mask': return ' '.join(m([b]) for b in a)
        return str(a)
    env = dict(os.environ, ASAN_OPTIONS='detect_leaks=0')
    p = subprocess.run([exe], input='\n'.join('%s\t%s\t%s' % (q['t'], q['f'], arg(q)) for q in qs) + '\n', stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, env=env)
    lines = p.stdout.splitlines()
    bits = lambda x: [b for b in range(32) if (x & 0xffffffff) >> b & 1]
    def ans(q, s):
        f = q['f']
        if f in MASKF: return 'err' if s == '-1' else bits(int(s))
        if f == 'mask_to_index_list': return [int(x) for x in s.split()]
        if f == 'mask_to_value_list': return [bits(int(x)) for x in s.split()]
        if f == 'mask_to_name_list': return s.split(',') if s else []
        if f in ('n', 'short_lists'): return int(s)
        if f in ('index_to_name', 'mask_to_name', 'value_to_name'): return 'err' if s == 'NULL' else s
        return 'err' if s == '-1' else int(s)
    if len(lines) != len(qs):
        q = qs[len(lines)]
        c.violation('the process ended in %s_%s(%s)' % (q['t'], q['f'], q['a']), dict(query=q)); qs = qs[:len(lines)]
    obs = []
    for q, l in zip(qs, lines):
        s, msg = l.rsplit('\t', 1)
        obs.append(dict(q, r=ans(q, s), m=msg == '1'))
    chunks = [obs[k::8] for k in range(8)]
    def work(ch):
        return tlc.judge('XrtmNames', 'CONSTANTS Part = "check"\nINIT InitC\nNEXT NextC\nINVARIANT Judge\nCHECK_DEADLOCK FALSE\n', ch)
    with ThreadPoolExecutor(8) as ex:
        for pr, st, raw, done in ex.map(work, chunks):
            if not done: raise tlc.TLCError(raw[-2000:])
            c.add(states=st, transitions=st - 1)
            for v in pr: c.violation('%s_%s(%s) is %s, must be %s' % (v['bad']['t'], v['bad']['f'], v['bad']['a'], v['bad']['r'], v['want']), v)
    c.add(traces_validated_against_impl=len(obs))
    c.sample(obs[0]); c.sample(obs[-1])

CHECKS = dict(P10=eq('P10', 3840, 9600), P11=eq('P11', 2560, 6400), P12=eq('P12', 5600, 16000), P13=eq('P13', 3200, 8000), P14=eq('P14', 2560, 6400), P15=eq('P15', 3200, 8000), P16=eq('P16', 3840, 9600), P17=eq('P17', 3840, 9600), P18=eq('P18', 3200, 8000), P19=eq('P19', 3840, 9600), P21=eq('P21', 1000, 5000), P23=eq('P23', 1000, 5000), P24=eq('P24', 3200, 8000), P25=eq('P25', 3200, 8000), P26=eq('P26', 3200, 8000), P27=eq('P27', 3200, 8000),
  P20=p20, P01=p01, P02=p02, P03=p03, P04=p04, P05=p05, P06=p06, P07=p07, P08=p08, P09=p09, P22=p22)
