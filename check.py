#!/usr/bin/env python3
"""Decides one property by seeded simulation:  check.py C01 [--tier quick|thorough] [--seed N] [--replay FILE]
exit 0: the property held on everything explored; 1: VIOLATION lines; 2: the simulator gave no answer; 3: the tree does not build."""
import sys, os, time, json, random, copy, argparse, traceback, shutil, tempfile, re, collections, signal, queue
import multiprocessing as mp
V = os.path.dirname(os.path.abspath(__file__)); sys.path[:0] = [V, V + '/py']
import build, runner, props, scen, minimise

IDS = ['C%02d' % k for k in range(1, 25)] + [k for k in ()]
# number of indices (each yields 1..9 cases) per tier, chosen so that quick takes well under two minutes
QUICK = dict(C01=4000, C02=2800, C03=6000, C04=4400, C05=4500, C06=3000, C07=280, C08=240, C09=4000, C10=4000, C11=2000, C12=1700, C13=2200,
             C14=2000, C15=2200, C16=2600, C17=1800, C18=4500, C19=3000, C20=900, C21=2600, C22=3500, C23=2000, C24=2600, C25=1500, C30=1600, C33=1000, C35=4000)
FACTOR = 20
CAP = dict(quick=100, thorough=720)          # seconds of search
LEVEL = {k: 'fault_enumeration' for k in ()}
FAULTY = ('C11', 'C12', 'C13', 'C14', 'C15', 'C16', 'C17', 'C20')

def one(prop, seed, i, lab, det):
    """all cases of one index -> (findings, cases, summaries of the runs)"""
    rng = random.Random('%s/%d/%d' % (prop, seed, i)); ctx = props.Ctx(lab); found = []; cases = []; harness = []
    g = props.generate(prop, i, rng, ctx)
    while True:
        try: chk, sc, p, x = next(g)
        except StopIteration: break
        except props.HarnessError as e: harness.append(str(e)); break
        except (OSError, MemoryError) as e: harness.append(repr(e)); break
        n0 = len(ctx.all); sc0, p0, x0 = copy.deepcopy(sc), copy.deepcopy(p), copy.deepcopy(x)
        try: f = props.CHECKS[chk](ctx, sc, p, x)
        except props.HarnessError as e: harness.append(str(e)); continue
        except (OSError, MemoryError) as e: harness.append(repr(e)); continue
        except Exception as e: f = [('%s:exception:%s' % (chk, type(e).__name__), traceback.format_exc()[-800:])]
        rs = [a for a in ctx.all[n0:] if a.r.n.get('switch', 0) or a.r.n.get('preempt', 0) or a.r.fired() or a.p['ranks'] > 1]
        cases.append((chk, '|'.join(sorted(a.r.hash for a in rs)), any(a.r.fired() for a in ctx.all[n0:])))
        for k, t in f: found.append((k, t, chk, sc0, p0, x0))
    d = None
    if det and ctx.all:
        a = ctx.all[0]; b = lab.run(a.sc, a.p, fresh=True, stats=False)
        d = (a.r.hash, a.r.outcome, a.r.console) == (b.r.hash, b.r.outcome, b.r.console); b.free()
    n = ctx.nruns; ctx.free(); return found, cases, harness, n, d

def worker(prop, seed, libdir, scratch, nxt, N, deadline, stop, out):
    signal.signal(signal.SIGINT, signal.SIG_IGN)
    lab = runner.Lab(libdir, 1, scratch)
    try:
        while True:
            with nxt.get_lock():
                i = nxt.value; nxt.value += 1
            if i >= N or stop.value or time.time() > deadline: break
            out.put(('case', i) + one(prop, seed, i, lab, i % 40 == 3))
    except BaseException: out.put(('error', traceback.format_exc()))
    s = lab.stats; del s.lock
    out.put(('stats', s.__dict__)); out.close(); out.join_thread(); lab.close()

def merge(a, b):
    for k, v in b.items():
        if k not in a: a[k] = v
        elif isinstance(v, (int, float)): a[k] += v
        elif isinstance(v, set): a[k] |= v
        elif isinstance(v, dict):
            for q, w in v.items(): a[k][q] = a[k].get(q, 0) + w

def search(prop, seed, libdir, N, cap, scratch):
    nxt = mp.Value('i', 0); stop = mp.Value('i', 0); out = mp.Queue(); t0 = time.time(); dl = t0 + cap
    n = max(1, min(8, os.cpu_count() or 1)); W = [mp.Process(target=worker, args=(prop, seed, libdir, scratch, nxt, N, dl, stop, out), daemon=True) for _ in range(n)]
    for w in W: w.start()
    R = dict(found=collections.OrderedDict(), cases=[], harness=[], runs=0, idx=0, det=[0, 0], stats={}); left = n; tf = None; nf = 0
    while left:
        try: m = out.get(timeout=5)
        except queue.Empty:
            if not any(w.is_alive() for w in W): break
            if time.time() > dl + 120: break
            continue
        if m[0] == 'stats': merge(R['stats'], m[1]); left -= 1
        elif m[0] == 'error': R['harness'].append(m[1])
        else:
            _, i, found, cases, harness, runs, d = m
            R['idx'] += 1; R['runs'] += runs; R['harness'] += harness; R['cases'] += cases
            if d is not None: R['det'][0] += 1; R['det'][1] += not d
            for f in found:
                R['found'].setdefault(f[0], []).append((i,) + f); nf += 1; tf = tf or time.time()
        if tf and (time.time() - tf > 8 or nf > 200): stop.value = 1
    for w in W:
        w.join(5)
        if w.is_alive(): w.kill()
    R['wall'] = time.time() - t0; return R

def known(prop):
    """entries 'known: property=<id> key=<finding key> [match=<regexp on the text>] <what fails>' of known_findings.txt"""
    o = []; p = V + '/known_findings.txt'
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r'known: property=(\S+) key=(\S+)(?: match=(\S+))? (.*)', l)
            if m and m.group(1) == prop: o.append((m.group(2), m.group(3), m.group(4)))
    return o

def sample(chk, sc, p, x):
    return dict(check=chk, program=sc['prog'], steps=sc.get('nots'), ranks=p['ranks'], threads=p['threads'], seed=p['seed'], sched=p['sched'], beam=[(b['kind'], b.get('n', 0)) for b in sc.get('beam', [])],
                lattice=[l['kind'] for l in sc.get('lattice', [])], outputs=sorted(scen.outputs(sc)), faults={k: p[k] for k in ('io', 'alloc', 'rankkill', 'killat', 'diskfull', 'maxfd', 'clockmode', 'procmode', 'straggler') if p[k] != runner.DEF[k]},
                psw=p['psw'], preempt=p['preempt'], extra={k: v for k, v in x.items() if k != 'fills'})

def samples(prop, seed, lab, n=3):
    o = []; i = 0
    while len(o) < n and i < 12:
        ctx = props.Ctx(lab)
        try:
            for c in props.generate(prop, i, random.Random('%s/%d/%d' % (prop, seed, i)), ctx): o.append(dict(index=i, **sample(*c))); break
        except Exception: pass
        ctx.free(); i += 1
    return o

RULES = dict(
    default='each index seeds a generator that draws a complete input (lattice, beam, tracking, observers, input files) and one or more plans (number of nodes and threads, schedule seed and switch probabilities, straggler, broadcast/reduction modes, fill of fresh memory, faults); the case executes the real programs in the simulator. '
            'A case counts as non-trivial if at least one of its runs had several nodes, a non-default scheduling decision or an injected fault that fired; distinct by the hashes of all events (messages, file operations, scheduling decisions, outputs) of these runs.')

def evidence(prop, tier, seed, R, smp, wall, nviol, note):
    s = R['stats']; w = max(R['wall'], 1e-6)
    d = {c[:2] for c in R['cases'] if c[1]}
    cov = dict(evaluations=len(R['cases']), distinct_nontrivial=len(d), rule=RULES['default'], samples=smp, indices=R['idx'], cases_by_check=dict(collections.Counter(c[0] for c in R['cases'])),
        cases_with_a_fault_that_fired=sum(c[2] for c in R['cases']), simulated_runs=R['runs'], runs_per_hour=int(R['runs'] / w * 3600), seeds_per_hour=int(R['idx'] / w * 3600), search_s=round(R['wall'], 1),
        simulated_time_s=round(s.get('simtime', 0), 3), events=s.get('events', 0), sync_points=s.get('sync', 0), scheduler_switches=s.get('switch', 0), preemptions_at_memory_accesses=s.get('preempt', 0), collectives=s.get('collectives', 0),
        distinct_schedules=len(s.get('sig', ())), distinct_schedules_measure='hash of the sequence of scheduling decisions of a run', distinct_executions=len(s.get('hashes', ())),
        distinct_executions_measure='hash of all events of a run', faults_injected={k: v for k, v in sorted(s.get('faults', {}).items())}, node_counts={str(k): v for k, v in sorted(s.get('ranks', {}).items())},
        thread_counts={str(k): v for k, v in sorted(s.get('threads', {}).items())}, outcomes=s.get('outcomes', {}), notes=s.get('notes', {}), determinism_retests=R['det'][0], determinism_failures=R['det'][1], harness_errors=len(R['harness']),
        real_code=['all of /repo/src (teufel_hybrid.cpp, propagate.cpp, reflection.cpp and every class), compiled from the working tree', 'SDDS library of the repository', 'HDF5, pugixml, muparser, libstdc++, libc stdio'],
        simulated=['MPI (all ranks in one process, private globals per rank)', 'OpenMP runtime', 'system calls on files, disk capacity, kill of job or node', 'clocks and sleep', '/proc, /sys statistics', 'std::random_device', 'heap (new/delete/malloc of the application)'])
    if note: cov['note'] = note
    e = dict(property=prop, tier=tier, seed=seed, level='exploration', coverage=cov, wall_s=round(wall, 1), violations=nviol,
        assumptions=['MPI transport is reliable; an abnormal end of one rank makes the runtime end the job', 'preemption between threads is explored at instrumented memory accesses and OpenMP constructs with sequentially consistent memory',
                     'files survive as far as write() accepted the data; the power is never lost', 'inputs are drawn from the generator in py/scen.py'])
    os.makedirs(V + '/evidence', exist_ok=True); t = V + '/evidence/.%s.%d' % (prop, os.getpid())
    with open(t, 'w') as f: json.dump(e, f, indent=1, default=str)
    os.rename(t, V + '/evidence/%s.json' % prop)

def replay(path, libdir, scratch):
    with open(path) as f: c = json.load(f)
    lab = runner.Lab(libdir, 1, scratch)
    try:
        f, h = minimise.evaluate(lab, c['check'], c['scenario'], c['plan'], c['extra'])
        hit = [t for k, t in f if k == c['key']]
        for k, t in f: print('%s: %s' % (k, t))
        if hit:
            same = h == c['hashes']
            print('the recorded violation was reproduced%s' % (' exactly (all event hashes agree)' if same else '; event hashes differ: %s' % ('the code has changed' if c['set'] != os.path.basename(libdir) else 'the oracle has changed')))
            print('VIOLATION property=%s replay=%s' % (c['property'], path)); return 1
        print('the recorded violation (%s) does not occur' % c['key']); return 0
    finally: lab.close()

def main():
    ap = argparse.ArgumentParser(); ap.add_argument('prop'); ap.add_argument('--tier', default=os.environ.get('VERIF_TIER') or 'quick'); ap.add_argument('--seed', type=int, default=int(os.environ.get('VERIF_SEED') or 1))
    ap.add_argument('--replay'); ap.add_argument('--n', type=int); ap.add_argument('--cap', type=float); a = ap.parse_args()
    t0 = time.time(); prop = a.prop; libdir = build.build(); tb = time.time() - t0
    os.makedirs(V + '/work', exist_ok=True); scratch = tempfile.mkdtemp(prefix='chk', dir=V + '/work')
    try:
        if a.replay: return replay(a.replay, libdir, scratch)
        N = a.n or QUICK[prop] * (FACTOR if a.tier == 'thorough' else 1); cap = a.cap or CAP[a.tier]
        R = search(prop, a.seed, libdir, N, cap, scratch)
        lab = runner.Lab(libdir, 1, scratch); nviol = 0; nknown = 0; note = None; kn = known(prop); rep = collections.OrderedDict()
        for k, v in R['found'].items():
            w = []
            for f in v:
                m = [e for e in kn if e[0] == k and (not e[1] or re.search(e[1], f[2]))]
                if m: nknown += 1; print('KNOWN-FINDING: property=%s %s' % (prop, m[0][2])) if not any(z == m[0] for z in rep.get('', [])) else None; rep.setdefault('', []).append(m[0])
                else: w.append(f)
            if w: rep[k] = w
        rep.pop('', None)
        budget = time.time() + (100 if a.tier == 'quick' else 160)
        # the keys hit most often first
        for k, v in sorted(rep.items(), key=lambda z: -len(z[1]))[:3]:
            c = minimise.case(lab, prop, k, v, libdir, min(budget, time.time() + 45), a.seed)
            if c is None:
                print('note: %s (index %d) was not reproduced: %s' % (k, v[0][0], v[0][2][:300])); R['harness'].append('not reproduced: ' + k); continue
            os.makedirs(V + '/replay', exist_ok=True); path = V + '/replay/%s-%s.json' % (prop, re.sub(r'\W+', '-', k)[:60])
            with open(path, 'w') as f: json.dump(c, f, indent=1)
            print('%s (found %d times, first at index %d)\n  %s\n  minimised: %s' % (k, len(v), v[0][0], c['text'][:1500], c['summary']))
            print('VIOLATION property=%s replay=%s' % (prop, path), flush=True); nviol += 1
        for k in [k for k, v in sorted(rep.items(), key=lambda z: -len(z[1]))][3:]: print('further: %s (%d times)' % (k, len(rep[k])))
        smp = samples(prop, a.seed, lab); lab.close()
        if R['idx'] < N and not rep: note = 'stopped by the time limit after %d of %d indices' % (R['idx'], N)
        evidence(prop, a.tier, a.seed, R, smp, time.time() - t0, nviol, note)
        for h in R['harness'][:3]: print('harness: ' + h.strip()[-400:])
        print('%s: %d cases, %d runs, %d distinct schedules, %.0f s (build %.0f s)%s; determinism %d/%d' % (prop, len(R['cases']), R['runs'], len(R['stats'].get('sig', ())), time.time() - t0, tb, ', ' + note if note else '', R['det'][0] - R['det'][1], R['det'][0]))
        if nviol: return 1
        if not R['cases'] or len(R['harness']) > max(3, 0.02 * R['idx']): return 2
        return 0
    finally: shutil.rmtree(scratch, ignore_errors=True)

if __name__ == '__main__': sys.exit(main())
