"""Reduces a failing case: fewer nodes, threads, faults, scheduling decisions and a smaller input with the same finding."""
import copy, json, time, os, traceback
import props, scen, runner

def evaluate(lab, chk, sc, p, x, want=None):
    """findings and event hashes of all runs of a case"""
    ctx = props.Ctx(lab)
    try:
        try: f = props.CHECKS[chk](ctx, copy.deepcopy(sc), copy.deepcopy(p), copy.deepcopy(x))
        except props.HarnessError: f = []
        except (OSError, MemoryError): f = []
        except Exception as e: f = [('%s:exception:%s' % (chk, type(e).__name__), traceback.format_exc()[-800:])]
        h = [(a.r.outcome, a.r.hash) for a in ctx.all]
        h = [list(v) for v in h]
        if want is not None: want += [(a.p, a.r) for a in ctx.all]
        return f, h
    finally: ctx.free()

def simpler_plans(p):
    def s(**kw):
        q = copy.deepcopy(p); q.update(kw); return q
    if p['ranks'] > 2: yield s(ranks=2); yield s(ranks=p['ranks'] // 2 + 1); yield s(ranks=p['ranks'] - 1)
    if p['ranks'] == 2: yield s(ranks=1)
    if p['threads'] != [1]: yield s(threads=[1]); yield s(threads=[2])
    if max(p['threads']) > 2: yield s(threads=[max(p['threads']) - 1])
    for k, v in (('psw', 0.0), ('preempt', 0), ('straggler', -1), ('fill', 0), ('clockmode', 0), ('procmode', 0), ('syncbcast', 0), ('redorder', 0), ('diskfull', -1), ('maxfd', -1), ('killat', -1), ('rankkill', None), ('abortdelay', 8)):
        if p.get(k) not in (v, 0.0 if k == 'preempt' else v): yield s(**{k: v})
    for l in ('io', 'alloc'):
        for i in range(len(p[l] or [])): yield s(**{l: p[l][:i] + p[l][i + 1:]})
    for i, f in enumerate(p['io'] or []):
        if f.get('sticky'): q = copy.deepcopy(p); q['io'][i]['sticky'] = 0; yield q
        if f.get('shortto', -1) > 0: q = copy.deepcopy(p); q['io'][i]['shortto'] = 0; yield q
    if p['racep']: yield s(racep=0.0, racepc=[], races=0)

def simpler_scenarios(sc):
    if sc['prog'] != 'teufel':
        for n, v in sc['inputs'].items():
            for k in ('nx', 'ny', 'nt'):
                lo = 5 if k == 'nt' else 1
                if v.get(k, lo) > lo:
                    for w in (lo, v[k] - 1): s = copy.deepcopy(sc); s['inputs'][n][k] = w; yield s
            for k in ('tilt', 'rough', 't0slope', 'flip', 'field'):
                if v.get(k) and not (k == 'field' and n == 'source.h5'): s = copy.deepcopy(sc); s['inputs'][n][k] = 0; yield s
        return
    for l in ('observers', 'tracking', 'lattice', 'beam'):
        n = len(sc[l])
        if n > 3:
            for h in (sc[l][:n // 2], sc[l][n // 2:]): s = copy.deepcopy(sc); s[l] = copy.deepcopy(h); yield scen.drop_unused(s)
        for i in range(n): s = copy.deepcopy(sc); del s[l][i]; yield scen.drop_unused(s)
    import re
    for i, b in enumerate(sc['beam']):
        for k, t in (('log', 'log'), ('traj', 'trajectories')):
            if k in b: s = copy.deepcopy(sc); del s['beam'][i][k]; s['beam'][i]['xml'] = re.sub(r'<%s\b[^>]*/>' % t, '', b['xml']); yield s
        if b['kind'] == 'bunch' and b['n'] > 1:
            for n in {1, b['n'] // 2, b['n'] - 1} - {0}:
                s = copy.deepcopy(sc); c = s['beam'][i]; c['xml'] = re.sub(r'(?<=\s)n="\d+"', 'n="%d"' % n, c['xml'], count=1); c['n'] = n
                if 'traj' in c: c['traj']['np'] = min(n, c['traj']['np'])
                yield s
        if b['kind'] == 'sdds' and b['n'] > 1 and 'claimed' not in sc['inputs'][b['input']]:
            for n in {1, b['n'] - 1}:
                s = copy.deepcopy(sc); s['inputs'][b['input']]['rows'] = sc['inputs'][b['input']]['rows'][:n]; s['beam'][i]['n'] = n; yield s
    if sc['nots'] > 1:
        for n in (1, sc['nots'] // 2, sc['nots'] - 1):
            s = copy.deepcopy(sc); s['nots'] = n; s['tracking'] = [t for t in s['tracking'] if t.get('step', 0) <= n or t['kind'] == 'fel']; yield s

def ddmin(items, ok, deadline):
    n = 2
    while len(items) >= 1 and time.time() < deadline:
        k = max(1, len(items) // n); hit = False
        for i in range(0, len(items), k):
            if time.time() > deadline: return items
            c = items[:i] + items[i + k:]
            if ok(c): items = c; n = max(2, n - 1); hit = True; break
        if not hit:
            if k == 1: break
            n = min(len(items), n * 2)
    return items

def case(lab, prop, key, found, libdir, deadline, seed):
    cur = None
    for f in found[:5]:
        i, k, text, chk, sc, p, x = f
        g, h = evaluate(lab, chk, sc, p, x)
        if any(q == key for q, _ in g): cur = (sc, p, x); break
    if cur is None: return None
    sc, p, x = cur; tried = 0
    def bad(s, q, y):
        return any(k == key for k, _ in evaluate(lab, chk, s, q, y)[0])
    again = True
    while again and time.time() < deadline:
        again = False
        if x.get('races') and time.time() < deadline:
            y = dict(x, races=0)
            if bad(sc, p, y): x = y; again = True
        for gen, isplan in ((simpler_plans, True), (simpler_scenarios, False)):
            more = True
            while more and time.time() < deadline:
                more = False
                for c in gen(p if isplan else sc):
                    if time.time() > deadline: break
                    tried += 1
                    try: b = bad(sc if isplan else c, c if isplan else p, x)
                    except Exception: b = False
                    if b:
                        if isplan: p = c
                        else: sc = c
                        more = again = True; break
    # the schedule as an explicit list of decisions, reduced
    if (p['psw'] or p['preempt'] or p['racep'] or x.get('races')) and not p['replay']:
        w = []; evaluate(lab, chk, sc, p, x, w)
        for pp, r in w:
            if (pp['psw'] or pp['preempt'] or pp['racep']) and (r.sd or r.pd) and not pp['races']:
                q = copy.deepcopy(p); q.update(replay=1, sd=r.sd, pd=r.pd, racep=0.0, racepc=[], races=0); y = dict(x); y.pop('races', None)
                dl = max(deadline, time.time() + 10)
                if bad(sc, q, y):
                    def ok(k): return lambda l: bad(sc, dict(q, **{k: l}), y)
                    q['pd'] = ddmin(q['pd'], ok('pd'), dl); q['sd'] = ddmin(q['sd'], ok('sd'), dl); p, x = q, y
                break
    f, h = evaluate(lab, chk, sc, p, x); f2, h2 = evaluate(lab, chk, sc, p, x)
    text = [t for k, t in f if k == key]
    faults = {k: p[k] for k in ('io', 'alloc', 'rankkill', 'killat', 'diskfull', 'maxfd', 'clockmode', 'procmode', 'straggler', 'fill', 'syncbcast', 'redorder') if p[k] != runner.DEF[k]}
    summary = 'nodes %d, threads %s, %s; %s; faults %s' % (p['ranks'], p['threads'], '%d scheduling decisions, %d preemptions (explicit list)' % (len(p['sd']), len(p['pd'])) if p['replay'] else 'schedule seed %d, switch %.2f, preempt %s' % (p['sched'], p['psw'], p['preempt']),
        'beam %s, lattice %s, %d steps, tracking %s, observers %s' % ([(b['kind'], b.get('n')) for b in sc['beam']], [l['kind'] for l in sc['lattice']], sc['nots'], [t['kind'] for t in sc['tracking']], ['%s/%s' % (o['kind'], o['source']) for o in sc['observers']]) if sc['prog'] == 'teufel' else sc['prog'], faults)
    return dict(property=prop, check=chk, key=key, index=i, seed=seed, text=text[0] if text else found[0][2], summary=summary, scenario=sc, plan=p, extra=x, hashes=h, exactly_repeatable=(h == h2), set=os.path.basename(libdir), reductions_tried=tried,
        input=scen.xml(sc) if sc['prog'] == 'teufel' else ' '.join([sc['prog']] + sc['args']))
