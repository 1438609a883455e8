"""Oracles (chk_*) and case generators (gen_*) of every property.

A case is (check, scenario, plan, extra).  chk_<check>(ctx, sc, p, x) executes the simulated runs the
case needs and returns a list of (key, text): empty if the property held.  The same function serves the
search, the reproduction of a failure, its minimisation and the replay of a replay file.
"""
import collections, contextlib, copy, io, json, os, re, math, shutil, tempfile
import numpy as np
import scen, readers, h5py
from runner import plan, DEF
np.seterr(all='ignore')
Bad = readers.Bad

class HarnessError(Exception): pass

class Ctx:
    """executes runs for one case; identical runs are executed once"""
    def __init__(self, lab): self.lab = lab; self.cache = {}; self.all = []; self.nruns = 0
    def run(self, sc, p, start=None):
        for k in range(3):
            r = self.lab.run(sc, p, fresh=(k > 0), start=start); self.nruns += 1; self.all.append(r)
            if r.r.outcome != 'harness-error': return r
        raise HarnessError(r.r.text)
    def cached(self, sc, p):
        k = json.dumps([sc, p], sort_keys=True)
        if k not in self.cache: self.cache[k] = self.run(sc, p)
        return self.cache[k]
    def free(self):
        for r in self.all: r.free()
        self.all = []; self.cache = {}

# ------------------------------------------------------------------ plans
QUIET = dict(io=[], alloc=[], rankkill=None, killat=-1, diskfull=-1, maxfd=-1, clockmode=0, procmode=0, psw=0.0, preempt=0.0, straggler=-1, racep=0.0,
             racepc=[], races=0, replay=0, sd=[], pd=[], syncbcast=0)
def ref_plan(p): return plan(ranks=1, threads=[1], seed=p['seed'], entropy=p.get('entropy'))
def no_faults(p):
    q = copy.deepcopy(p); q.update(io=[], alloc=[], rankkill=None, killat=-1, diskfull=-1, maxfd=-1); return q
def simple(p, **kw):
    """same nodes and threads, undisturbed"""
    q = copy.deepcopy(p); q.update(copy.deepcopy(QUIET)); q.update(fill=0, sched=1); q.update(kw); return q

CROWD = (13, 14, 15, 16, 16, 17, 20, 24, 31, 32, 33)
def many(r): return r.choice(CROWD) if r.random() < 0.03 else r.choice([2, 2, 2, 3, 3, 3, 4, 4, 5, 5, 6, 6, 7, 7, 8, 8, 9, 10, 12])
def rnd_plan(r, ranks=None, threads=None, **kw):
    p = plan(seed=r.randrange(1, 10**9), sched=r.randrange(1, 10**9))
    p['ranks'] = ranks if ranks is not None else r.choice(CROWD) if r.random() < 0.02 else r.choice([1, 1, 2, 2, 2, 2, 3, 3, 3, 4, 4, 5, 5, 6, 6, 7, 7, 8, 8, 9, 11, 12])
    p['threads'] = threads if threads is not None else [r.choice([1, 1, 2, 3, 4]) for _ in range(r.choice([1, 1, p['ranks']]))]
    p['psw'] = r.choice([0.0, 0.1, 0.3, 0.3, 0.6, 0.9, 1.0])
    if r.random() < 0.25 and p['ranks'] > 1: p['straggler'] = r.randrange(p['ranks'])
    p['syncbcast'] = r.choice([0, 1, 2]); p['redorder'] = r.choice([0, 1]); p['fill'] = r.choice([0, 1, 2])
    if r.random() < 0.3: p['clockmode'] = r.randrange(1, 8)
    if r.random() < 0.15: p['procmode'] = r.randrange(1, 8)
    p.update(kw); return p

# ------------------------------------------------------------------ comparing runs
def eqnan(a, b):
    a, b = np.asarray(a), np.asarray(b); return a.shape == b.shape and bool(((a == b) | ((a != a) & (b != b))).all())
def off_grid(ctx, sc, p, a):
    """the beam itself leaves the range of the interaction (numerically unstable input): the run ends with an error on any number of nodes"""
    return fails(a) and 'off grid bounds' in a.r.console and fails(ctx.cached(sc, ref_plan(p)))
def fails(run): return run.r.outcome != 'ok'
def why(run): return '%s %s %s' % (run.r.outcome, run.r.text, '; '.join('%s: %s' % v for v in run.r.viol[:2]))

def tolerance(it, p, q):
    """None: identical numbers. Sums over nodes may be rounded differently"""
    if it['kind'] in ('point', 'screen', 'snapshot', 'mesh'):
        if p['ranks'] == 1 and q['ranks'] == 1: return None
        return 1e-9
    return None

def differ(a, b, name, it, tol='auto'):
    """None if the output file of both runs holds the same; text otherwise"""
    t = tolerance(it, a.p, b.p) if tol == 'auto' else tol
    try: y = b.out(name)
    except Bad as e: y = None; eb = e
    try: x = a.out(name)
    except Bad as e:
        return None if y is None else 'not readable (%s)' % e
    if y is None: return 'readable, but not in the reference run (%s)' % eb
    if t is not None and it['kind'] == 'snapshot' and 'ParticleCoordinates' in x and 'ParticleCoordinates' in y:
        c = readers.compare({k: v for k, v in x.items() if k.startswith('Part')}, {k: v for k, v in y.items() if k.startswith('Part')})
        if c: return c
    return readers.compare(x, y, t)

def cmp_runs(tag, a, b, sc, kinds=None, skip=(), tol='auto'):
    """findings of run a against the reference run b"""
    if fails(a) and fails(b): return []
    if fails(a): return [('%s:outcome' % tag, 'the run ended with: %s' % why(a))]
    if fails(b): return [('%s:ref-outcome' % tag, 'the reference run ended with: %s' % why(b))]
    o = []
    for n, it in scen.outputs(sc).items():
        if it['kind'] in skip or (kinds and it['kind'] not in kinds): continue
        d = differ(a, b, n, it, tol)
        if d: o.append(('%s:%s%s' % (tag, it['kind'], '.' + it['source'] if 'source' in it else ''), '%s: %s' % (n, d)))
    return o

TRACK = ('watch', 'watch-sdds', 'plog', 'traj')
OBS = ('point', 'screen', 'snapshot', 'mesh')

# ------------------------------------------------------------------ C01
def chk_nodes(ctx, sc, p, x):
    return cmp_runs('nodes', ctx.run(sc, p), ctx.cached(sc, ref_plan(p)), sc, TRACK)

def initial(sc, o):
    """expected particles: list of None or dict(x=, bg=) in the order of the input"""
    e = []
    for b in sc['beam']:
        if b['kind'] == 'particle': e.append({'x': b['x0'], 'bg': math.sqrt(b['gamma'] ** 2 - 1)})
        elif b['kind'] == 'sdds' and not b.get('corr'): e += [{'bg': r[5]} for r in sc['inputs'][b['input']]['rows']]
        else: e += [None] * b.get('n', 0)
    return e

def with_watch(sc, steps, t='watch', p='zz'):
    s = copy.deepcopy(sc)
    for k in steps:
        nm = '%s%d.%s' % (p, k, 'h5' if t == 'watch' else 'sdds')
        s['tracking'].append({'kind': t, 'out': nm, 'step': k, 'xml': '<%s step="%d" file="%s"/>' % (t, k, nm)})
    return s

def chk_order(ctx, sc, p, x):
    s = with_watch(sc, [0]); a = ctx.run(s, p)
    if fails(a): return [] if fails(ctx.cached(s, ref_plan(p))) else [('order:outcome', why(a))]
    try: w = a.out('zz0.h5')['electrons']
    except Bad as e: return [('order:watch', 'initial watch file: %s' % e)]
    e = initial(sc, w)
    if len(e) != len(w): return [('order:number', '%d particles in the watch file, %d in the input' % (len(w), len(e)))]
    for i, q in enumerate(e):
        if not q: continue
        if abs(np.linalg.norm(w[i, 3:]) - q['bg']) > 1e-9 * q['bg']: return [('order:momentum', 'particle %d has momentum %r instead of %r' % (i, float(np.linalg.norm(w[i, 3:])), q['bg']))]
        if 'x' in q and np.abs(w[i, :3] - q['x']).max() > 1e-12: return [('order:position', 'particle %d is at %s instead of %s' % (i, w[i, :3], q['x']))]
    return []

def gen_C01(i, r):
    want = [r.choice(['noobs', 'noobs', 'obs']) if r.random() < 0.7 else 'x', 'nosource'] + (['watch'] if r.random() < 0.5 else []) + (['logs'] if r.random() < 0.3 else [])
    sc = scen.make(r.randrange(10**9), want)
    s0 = r.randrange(1, 10**9)
    for k in range(3): yield 'nodes', sc, rnd_plan(r, ranks=many(r), seed=s0), {}
    if r.random() < 0.5: yield 'order', scen.make(r.randrange(10**9), ['fixed', 'noobs', 'nosource', 'nofel']), rnd_plan(r), {}

# ------------------------------------------------------------------ C02 / C03
def chk_beamobs(ctx, sc, p, x):
    return cmp_runs('beamobs', ctx.run(sc, p), ctx.cached(sc, ref_plan(p)), only_obs(sc, 'beam'), OBS)

def only_obs(sc, src):
    s = copy.deepcopy(sc); s['observers'] = [o for o in s['observers'] if o['source'] == src]; return scen.drop_unused(s)

def fields(run, name):
    o = run.out(name)
    if name.endswith('.sdds'): return np.array([o['col.' + c] for c in sorted(k[4:] for k in o if k.startswith('col.') and k[4:] not in ('t', 't0'))]).T
    return o['ElMagField']

def close_to(tag, got, want, tol, what):
    if got.shape != want.shape: return [(tag + ':shape', '%s: shape %s instead of %s' % (what, got.shape, want.shape))]
    if got.size == 0: return []
    ax = tuple(range(got.ndim - 1))
    if not np.isfinite(got).all() or not np.isfinite(want).all():
        return [] if (np.isfinite(got) == np.isfinite(want)).all() else [(tag, what + ': non-finite values')]
    s = np.abs(want).max(axis=ax, keepdims=True); d = np.abs(got - want)
    # components that cancel to nothing are measured against the field as a whole
    n = want.shape[-1]
    if n == 6:
        m = np.concatenate([np.repeat(s[..., :3].max(-1, keepdims=True), 3, -1), np.repeat(s[..., 3:].max(-1, keepdims=True), 3, -1)], -1)
        s = np.maximum(s, 1e-3 * m)
    b = d > tol * s
    if b.any():
        k = tuple(int(v) for v in np.argwhere(b)[0]); return [(tag, '%s: %d of %d values, first at %s: %r instead of %r' % (what, b.sum(), b.size, k, float(got[k]), float(want[k])))]
    return []

def chk_superpose(ctx, sc, p, x):
    """the fields of the whole beam are the sum of the fields of its elements"""
    sc = only_obs(sc, 'beam'); a = ctx.run(sc, p)
    parts = []
    for k, b in enumerate(sc['beam']):
        s = copy.deepcopy(sc); s['beam'] = [copy.deepcopy(b)]; s['tracking'] = []
        for z in ('log', 'traj', 'probe'): pass
        parts.append(ctx.cached(scen.drop_unused(s), ref_plan(p)))
    if fails(a) or any(fails(q) for q in parts):
        return [('superpose:outcome', why(a))] if fails(a) and not any(fails(q) for q in parts) else []
    o = []
    for n, it in scen.outputs(sc).items():
        if it['kind'] not in OBS or not parts: continue
        try: tot = sum(fields(q, n) for q in parts); got = fields(a, n); mag = sum(np.abs(fields(q, n)) for q in parts)
        except Bad as e: o.append(('superpose:unreadable', '%s: %s' % (n, e))); continue
        if got.shape != tot.shape: o.append(('superpose:shape', n)); continue
        if got.size == 0: continue
        s = mag.max(axis=tuple(range(mag.ndim - 1)), keepdims=True); d = np.abs(got - tot) > 1e-9 * s
        if d.any():
            k = tuple(int(v) for v in np.argwhere(d)[0]); o.append(('superpose:%s' % it['kind'], '%s: field of the beam at %s is %r, sum over its %d elements %r' % (n, k, float(got[k]), len(parts), float(tot[k]))))
    return o

def point_fields(run, n):
    v = fields(run, n); return np.concatenate([v[:, 3:], v[:, :3]], 1)   # sorted by name: Bx By Bz Ex Ey Ez

def chk_agree(ctx, sc, p, x):
    """observers of different kinds record the same field at the same place and time"""
    src = x['source']; a = ctx.run(sc, p)
    if fails(a): return []
    s = copy.deepcopy(sc); s['observers'] = []; todo = []
    for ob in sc['observers']:
        n = ob['out']
        if ob['source'] != src or ob['kind'] not in ('screen', 'mesh'): continue
        try: got = fields(a, n); d = a.out(n)
        except Bad: continue
        if ob['kind'] == 'mesh':
            pos, t0 = d['ObservationPosition'], d['ObservationTime']; dt = sc['inputs'][n]['dt']; cells = [(k % got.shape[0],) for k in x['pick'] if got.shape[0]]
            P = lambda c: pos[c[0]]; T = lambda c: t0[c[0]]
        else:
            m = re.search(r'<position x="(\S+)" y="(\S+)" z="(\S+)"/><hpitch x="(\S+)" y="0" z="0" n="(\d+)"(?: dt="(\S+)")?/><vpitch x="0" y="(\S+)" z="0" n="(\d+)"(?: dt="(\S+)")?/><time t0="(\S+)" dt="(\S+)"', ob['xml'])
            if not m: continue
            X = [float(m.group(j)) for j in (1, 2, 3)]; dx, nx, dtx, dy, ny, dty, t00, dt = float(m.group(4)), int(m.group(5)), float(m.group(6) or 0), float(m.group(7)), int(m.group(8)), float(m.group(9) or 0), float(m.group(10)), float(m.group(11))
            cells = [(k % nx, (k // nx) % ny) for k in x['pick']]
            P = lambda c, X=X, dx=dx, dy=dy, nx=nx, ny=ny: (X[0] + dx * (c[0] - nx // 2), X[1] + dy * (c[1] - ny // 2), X[2])
            T = lambda c, t=t00, u=dtx, v=dty, nx=nx, ny=ny: t + u * (c[0] - nx // 2) + v * (c[1] - ny // 2)
        for c in sorted(set(cells)):
            if got[c].ndim != 2: continue
            q = 'agree%d.sdds' % len(todo); s['observers'].append({'kind': 'point', 'source': src, 'out': q,
                'xml': '<point file="%s" source="%s"><position x="%s" y="%s" z="%s"/><time t0="%s" dt="%s" n="%d"/></point>' % (q, src, *map(scen.f, P(c)), scen.f(T(c)), scen.f(dt), got[c].shape[0])})
            todo.append((n, ob['kind'], c, got[c], q))
    if not todo: return []
    b = ctx.run(scen.drop_unused(s), p)
    if fails(b): return []
    o = []
    for n, k, c, got, q in todo:
        try: o += close_to('agree:%s-%s' % (k, src), got, point_fields(b, q), 1e-5, '%s cell %s against a point observer there' % (n, c))
        except Bad as e: o.append(('agree:unreadable', '%s: %s' % (q, e)))
    return o

def gen_C02(i, r):
    sc = scen.make(r.randrange(10**9), ['beamobs', 'obs', 'nosource']); s0 = r.randrange(1, 10**9)
    for k in range(2): yield 'beamobs', sc, rnd_plan(r, ranks=many(r), seed=s0), {}
    if i % 3 == 1: yield 'agree', scen.make(r.randrange(10**9), ['beamobs', 'obs', 'nosource', 'noprobe', 'nobig']), rnd_plan(r), {'source': 'beam', 'pick': [r.randrange(24) for _ in range(3)]}
    if i % 3 == 0: yield 'superpose', scen.make(r.randrange(10**9), ['beamobs', 'obs', 'nosource', 'fixed', 'nofel', 'noprobe']), rnd_plan(r), {}

def chk_latobs(ctx, sc, p, x):
    return cmp_runs('latobs', ctx.run(sc, p), ctx.cached(sc, ref_plan(p)), only_obs(sc, 'lattice'), OBS)

def chk_background(ctx, sc, p, x):
    """only constant fields: the recorded value is known"""
    a = ctx.run(sc, p)
    if fails(a): return [] if fails(ctx.cached(sc, ref_plan(p))) else [('background:outcome', why(a))]
    want = np.zeros(6)
    for l in sc['lattice']: want += np.array([float(v) for v in re.findall(r'[xyz]="([^"]+)"', l['xml'])])
    o = []
    for n, it in scen.outputs(sc).items():
        if it['kind'] not in OBS or it['source'] != 'lattice': continue
        try: got = fields(a, n)
        except Bad as e: o.append(('background:unreadable', '%s: %s' % (n, e))); continue
        if n.endswith('.sdds'): # column order is sorted by name: Bx By Bz Ex Ey Ez
            w = np.concatenate([want[3:], want[:3]])
        else: w = want
        if got.shape[-1] != 6: continue
        o += close_to('background:%s' % it['kind'], got, np.broadcast_to(w, got.shape), 1e-10, n)
    return o

def chk_felobs(ctx, sc, p, x):
    """interaction fields are not part of the recorded lattice fields"""
    s = copy.deepcopy(sc); s['tracking'] = [t for t in s['tracking'] if t['kind'] != 'fel']
    a = ctx.run(sc, p)
    if off_grid(ctx, sc, p, a): return []
    return cmp_runs('felobs', a, ctx.cached(s, ref_plan(p)), only_obs(s, 'lattice'), OBS)

def gen_C03(i, r):
    k = i % 4
    if r.random() < 0.15: yield 'agree', scen.make(r.randrange(10**9), ['latobs', 'obs', 'nosource', 'nofel', 'noprobe', 'nobig', 'small']), rnd_plan(r), {'source': 'lattice', 'pick': [r.randrange(24) for _ in range(3)]}
    if k in (0, 1):
        sc = scen.make(r.randrange(10**9), ['latobs', 'obs', 'source' if r.random() < 0.1 else 'nosource', 'small']); s0 = r.randrange(1, 10**9)
        for _ in range(2): yield 'latobs', sc, rnd_plan(r, ranks=many(r), seed=s0), {}
    elif k == 2:
        sc = scen.make(r.randrange(10**9), ['latobs', 'obs', 'nosource', 'small', 'nofel'])
        sc['lattice'] = [l for l in sc['lattice'] if l['kind'] == 'bg'] or scen.make(1 + r.randrange(10**9))['lattice'][:1]
        if all(l['kind'] == 'bg' for l in sc['lattice']): yield 'background', sc, rnd_plan(r), {}
    else:
        yield 'felobs', scen.make(r.randrange(10**9), ['latobs', 'obs', 'nosource', 'small', 'fel', 'noprobe']), rnd_plan(r), {}

# ------------------------------------------------------------------ C04
def chk_fel(ctx, sc, p, x):
    a = ctx.run(sc, p); o = cmp_runs('fel', a, ctx.cached(sc, ref_plan(p)), sc, TRACK + ('fel',))
    if fails(a): return o
    for n, it in scen.outputs(sc).items():
        if it['kind'] != 'fel' or it['step'] != 1: continue
        try: f = a.out(n)
        except Bad as e: o.append(('fel:unreadable', '%s: %s' % (n, e))); continue
        if f['InteractionField'].shape != (sc['nots'] + 1, it['N']) or f['CurrentDensity'].shape != f['InteractionField'].shape:
            o.append(('fel:steps', '%s: %s instead of %s values' % (n, f['InteractionField'].shape, (sc['nots'] + 1, it['N']))))
    return o

def chk_felstep(ctx, sc, p, x):
    """a log with a larger interval holds every m-th record of the complete one"""
    s = copy.deepcopy(sc)
    for t in s['tracking']:
        if t['kind'] == 'fel' and 'out' in t: t['step'] = 1; t['xml'] = re.sub(r'(<log [^>]*step=)"\d+"', r'\1"1"', t['xml'])
    a = ctx.run(sc, p); b = ctx.cached(s, ref_plan(p))
    if fails(a) or fails(b): return [('felstep:outcome', why(a))] if fails(a) and not fails(b) else []
    o = []
    for n, it in scen.outputs(sc).items():
        if it['kind'] != 'fel': continue
        try: f, g = a.out(n), b.out(n)
        except Bad as e: o.append(('felstep:unreadable', '%s: %s' % (n, e))); continue
        for d in ('InteractionField', 'CurrentDensity'):
            m = it['step']; idx = [0] + [N - 1 for N in range(2, sc['nots'] + 2) if N % m == 0]
            if f[d].shape != g[d][idx].shape or not eqnan(f[d], g[d][idx]): o.append(('felstep:rows', '%s %s does not hold every %d-th record: %s rows' % (n, d, m, f[d].shape)))
    return o

def gen_C04(i, r):
    sc = scen.make(r.randrange(10**9), ['fel', 'nosource', 'noobs'] + (['watch'] if r.random() < 0.6 else [])); s0 = r.randrange(1, 10**9)
    for t in sc['tracking']:
        if t['kind'] == 'fel' and 'out' in t and r.random() < 0.5: t['step'] = 1; t['xml'] = re.sub(r'(<log [^>]*step=)"\d+"', r'\1"1"', t['xml'])
    if r.random() < 0.1: sc['nots'] = r.choice([1, 2])
    for _ in range(2): yield 'fel', sc, rnd_plan(r, ranks=many(r), seed=s0), {}
    if i % 3 == 0: yield 'felstep', sc, rnd_plan(r, seed=s0), {}

# ------------------------------------------------------------------ C05
def chk_common(ctx, sc, p, x):
    """whatever the other nodes draw, the distribution is the one of the root node"""
    q = copy.deepcopy(p); e0 = x['entropy'][0]
    q['entropy'] = x['entropy'][:p['ranks']]
    rp = ref_plan(q); rp['entropy'] = [e0]
    return cmp_runs('common', ctx.run(sc, q), ctx.cached(sc, rp), sc, TRACK + OBS + ('fel',))

def conserve(tag, sc, a, w, sd):
    o = []; N = scen.nop(sc)
    if len(w) != N: o.append((tag + ':number', '%d particles in the initial watch file, %d in the input' % (len(w), N)))
    Q = sum(b['q'] for b in sc['beam'] if b.get('n'))
    if sd is not None and N:
        if int(sd['par.NumberOfParticles']) != N: o.append((tag + ':number', 'watch file says %s particles instead of %d' % (sd['par.NumberOfParticles'], N)))
        m = sum(abs(b['q']) for b in sc['beam'] if b.get('n'))
        if abs(float(sd['par.Charge']) - Q) > 1e-9 * m: o.append((tag + ':charge', 'total charge %r instead of %r' % (float(sd['par.Charge']), Q)))
    return o

def chk_conserve(ctx, sc, p, x):
    """number, charge and identity of the particles from the input to the last step"""
    n = sc['nots']
    s = with_watch(with_watch(sc, [0, n]), [0, n], 'watch-sdds', 'zs')
    a = ctx.run(s, p)
    if fails(a): return [] if fails(ctx.cached(s, ref_plan(p))) else [('conserve:outcome', why(a))]
    o = []
    try:
        w0, w1, s0, s1 = a.out('zz0.h5')['electrons'], a.out('zz%d.h5' % n)['electrons'], a.out('zs0.sdds'), a.out('zs%d.sdds' % n)
    except Bad as e: return [('conserve:unreadable', str(e))]
    o += conserve('conserve', sc, a, w0, s0) + conserve('conserve', sc, a, w1, s1)
    for w, s_ in ((w0, s0), (w1, s1)):
        m = np.array([s_['col.' + c] for c in ('x', 'y', 'z', 'px', 'py', 'pz')]).T
        if m.shape != w.shape or not eqnan(m, w): o.append(('conserve:formats', 'the two formats of one watch point disagree'))
    m = re.search(r'total number of particles : (\d+)', a.r.console)
    if m and int(m.group(1)) != scen.nop(sc): o.append(('conserve:console', m.group(0)))
    return o

def recreate(sc, w, t0):
    """the same beam, given particle by particle"""
    s = copy.deepcopy(sc); s['beam'] = []; k = 0
    for b in sc['beam']:
        for j in range(b.get('n', 0)):
            bg = w[k, 3:]; g = math.sqrt(1 + float(bg @ bg)); f = scen.f
            q = b['q'] / b['n']; cmr = b['cmr']
            s['beam'].append({'kind': 'particle', 'n': 1, 'q': q, 'cmr': cmr, 't0': b['t0'], 'xml': '<particle gamma="%s" charge="%s" cmr="%s"><time t0="%s"/><position x="%s" y="%s" z="%s"/><momentum x="%s" y="%s" z="%s"/></particle>' % (
                f(g), f(q), f(cmr), f(t0[k]), *[f(v) for v in w[k]])})
            k += 1
    return scen.drop_unused(s)

def chk_recreate(ctx, sc, p, x):
    """the initial watch file, entered as a list of particles, leads to the same later steps and radiation"""
    if not scen.nop(sc): return []
    n = sc['nots']; s = with_watch(with_watch(sc, [0, n // 2, n]), [0], 'watch-sdds', 'zs')
    s['beam'] = [b for b in s['beam'] if b['kind'] != 'probe']
    a = ctx.run(s, p)
    if fails(a): return [] if fails(ctx.cached(s, ref_plan(p))) else [('recreate:outcome', why(a))]
    try: w = a.out('zz0.h5')['electrons']; t0 = a.out('zs0.sdds')['col.t']
    except Bad as e: return [('recreate:unreadable', str(e))]
    if len(w) != scen.nop(sc): return [('recreate:number', '%d particles instead of %d' % (len(w), scen.nop(sc)))]
    b = ctx.run(recreate(s, w, t0), ref_plan(p))
    if fails(b): return [('recreate:outcome', 'the recreated beam: ' + why(b))]
    try:
        if max([np.abs(a.out(k)['electrons'][:, 3:]).max() for k in ('zz%d.h5' % j for j in {0, n // 2, n})]) > 1e3: return []   # strong fields far off axis: chaotic
    except Bad as e: return [('recreate:unreadable', str(e))]
    o = []; near_ = []
    def sens(nm, u, v):
        """how much the result changes if the initial coordinates change by 1e-9: large close to the edges of the fields"""
        if not near_:
            for k in (1, 2, 3):
                e = 1e-9 * np.random.RandomState(k).uniform(-1, 1, w.shape) * np.maximum(np.abs(w).max(axis=0), 1e-12)
                near_.append(ctx.cached(recreate(s, w + e, t0), ref_plan(p)))
        d = np.zeros(v.shape)
        for c in near_:
            if not fails(c) and c.out(nm)['electrons'].shape == v.shape: d = np.maximum(d, np.abs(c.out(nm)['electrons'] - v))
        return d
    for nm, it in scen.outputs(s).items():
        try:
            if it['kind'] == 'watch':
                u, v = a.out(nm)['electrons'], b.out(nm)['electrons']
                if u.shape != v.shape: o.append(('recreate:watch', '%s: shape' % nm)); continue
                sc_ = np.maximum(np.abs(v).max(axis=0), [1e-9] * 3 + [1e-3] * 3); d = np.abs(u - v) > 1e-7 * sc_
                if d.any(): d = np.abs(u - v) > 1e-7 * sc_ + 10 * sens(nm, u, v)
                if d.any(): k = tuple(np.argwhere(d)[0]); o.append(('recreate:watch', '%s: particle %d coordinate %d is %r instead of %r' % (nm, k[0], k[1], float(u[k]), float(v[k]))))
            elif it['kind'] in OBS and it['source'] == 'beam':
                o += close_to('recreate:' + it['kind'], fields(a, nm), fields(b, nm), 1e-4, nm)
        except Bad as e: o.append(('recreate:unreadable', '%s: %s' % (nm, e)))
    return o

def gen_C05(i, r):
    k = i % 3
    if k == 0:
        sc = scen.make(r.randrange(10**9), ['random', 'nosource', 'noprobe'] + (['watch'] if r.random() < 0.7 else []))
        e0 = r.randrange(100)
        for _ in range(2): yield 'common', sc, rnd_plan(r, ranks=many(r), seed=77), {'entropy': [e0] + [r.choice([e0, 100 + r.randrange(100)]) for _ in range(40)]}
    elif k == 1:
        yield 'conserve', scen.make(r.randrange(10**9), ['nosource', 'noobs']), rnd_plan(r), {}
        yield 'order', scen.make(r.randrange(10**9), ['fixed', 'noobs', 'nosource', 'nofel']), rnd_plan(r), {}
    else:
        yield 'recreate', scen.make(r.randrange(10**9), ['random', 'nosource', 'beamobs', 'obs', 'nofel', 'noprobe']), rnd_plan(r), {}

# ------------------------------------------------------------------ C06 C07 C08
def with_races(ctx, sc, p, x):
    """preemption directed at memory accesses of different threads to the same place"""
    if not x.get('races'): return p
    q = copy.deepcopy(p); q.update(races=1, racep=0.0, racepc=[], replay=0, sd=[], pd=[])
    a = ctx.cached(sc, q)
    if not a.r.racepc: return p
    q = copy.deepcopy(p); q['racepc'] = sorted(a.r.racepc)[:200]; q['racep'] = x['races']; return q

def chk_threads(ctx, sc, p, x):
    if not p.get('replay'): p = with_races(ctx, sc, p, x)
    q = simple(p, threads=[1], redorder=p['redorder'])
    return cmp_runs('threads', ctx.run(sc, p), ctx.cached(sc, q), sc, OBS if sc['prog'] == 'teufel' else None, tol=None)

def chk_cells(ctx, sc, p, x):
    """each cell of an array observer holds what an observer with this cell alone records"""
    a = ctx.run(sc, p)
    ob = [o for o in sc['observers'] if o['kind'] in ('screen', 'mesh')][:1]
    if not ob or fails(a): return []
    ob = ob[0]; n = ob['out']
    try: got = fields(a, n)
    except Bad: return []
    o = []; todo = []
    if ob['kind'] == 'mesh':
        for k in x['pick']:
            k = k % got.shape[0]
            s = copy.deepcopy(sc); s['observers'] = [copy.deepcopy(ob)]; s['inputs'][n]['only'] = k; todo.append(((k,), (0,), s))
    else:
        t = re.findall(r'(\w+)="([^"]*)"', ob['xml']); m = re.search(r'<position x="(\S+)" y="(\S+)" z="(\S+)"/><hpitch x="(\S+)" y="0" z="0" n="(\d+)"(?: dt="(\S+)")?/><vpitch x="0" y="(\S+)" z="0" n="(\d+)"(?: dt="(\S+)")?/><time t0="(\S+)" dt', ob['xml'])
        if not m: return []
        X = [float(m.group(j)) for j in (1, 2, 3)]; dx, nx, dtx, dy, ny, dty, t0 = float(m.group(4)), int(m.group(5)), float(m.group(6) or 0), float(m.group(7)), int(m.group(8)), float(m.group(9) or 0), float(m.group(10))
        if got.shape[:2] != (nx, ny): return [('cells:shape', '%s: %s' % (n, got.shape))]
        for k in x['pick']:
            ix, iy = k % nx, (k // nx) % ny
            s = copy.deepcopy(sc); c = copy.deepcopy(ob)
            c['xml'] = re.sub(r'(<hpitch [^>]*n=)"\d+"', r'\1"1"', re.sub(r'(<vpitch [^>]*n=)"\d+"', r'\1"1"', c['xml']))
            c['xml'] = re.sub(r'<position [^>]*/>', '<position x="%s" y="%s" z="%s"/>' % (scen.f(X[0] + dx * (ix - nx // 2)), scen.f(X[1] + dy * (iy - ny // 2)), scen.f(X[2])), c['xml'])
            c['xml'] = re.sub(r'<time t0="\S+"', '<time t0="%s"' % scen.f(t0 + dtx * (ix - nx // 2) + dty * (iy - ny // 2)), c['xml'])
            s['observers'] = [c]; todo.append(((ix, iy), (0, 0), s))
    for k, z, s in todo:
        b = ctx.cached(scen.drop_unused(s), ref_plan(p))
        if fails(b): continue
        try: want = fields(b, n)[z]
        except Bad: continue
        o += close_to('cells:%s' % ob['kind'], got[k], want, 1e-5, '%s cell %s against this cell alone' % (n, k))
    return o

def tplan(r, **kw):
    """schedules of threads: from coarse to every few accesses"""
    p = rnd_plan(r, **kw)
    if 'preempt' not in kw: p['preempt'] = r.choice([0, 20, 60, 200, 1000, 5000])
    p['psw'] = r.choice([0.0, 0.2, 0.5, 0.9]); return p

def gen_C06(i, r):
    sc = scen.make(r.randrange(10**9), ['obs', 'nosource', 'small', 'nofel', 'noprobe']); s0 = r.randrange(1, 10**9); rk = r.choice([1, 1, 1, 2])
    ro = r.choice([0, 1])
    for k in range(3): yield 'threads', sc, tplan(r, ranks=rk, threads=[r.choice([2, 3, 4, 5, 8])], seed=s0, redorder=ro), {'races': r.choice([0, 0.02, 0.2]) if k < 2 else 0}
    if i % 3 == 0:
        s = copy.deepcopy(sc); s['observers'] = [o for o in s['observers'] if o['kind'] in ('screen', 'mesh')][:1]
        if s['observers']: yield 'cells', scen.drop_unused(s), tplan(r, ranks=rk, threads=[r.choice([2, 3, 4])], seed=s0), {'pick': [r.randrange(64) for _ in range(3)]}

def chk_toolcells(ctx, sc, p, x):
    """each target cell holds what the tool computes for this cell alone"""
    a = ctx.run(sc, p)
    if fails(a): return []
    try: got = a.out(sc['outs'][0]['out'])['ElMagField']
    except Bad as e: return [('toolcells:unreadable', str(e))]
    o = []
    if not np.abs(got).max() > 0: o.append(('toolcells:nothing', 'the tool computed no fields at all')) if x.get('nonzero') else None
    for k in x['pick']:
        k = k % got.shape[0]; s = copy.deepcopy(sc); s['inputs']['target.h5']['only'] = k
        b = ctx.cached(s, ref_plan(p))
        if fails(b): o.append(('toolcells:outcome', why(b))); continue
        try: want = b.out(sc['outs'][0]['out'])['ElMagField'][0]
        except Bad as e: o.append(('toolcells:unreadable', str(e))); continue
        o += close_to('toolcells:cell', got[k], want, 1e-12, 'target cell %d against this cell alone' % k)
    return o

def chk_toolorder(ctx, sc, p, x):
    """the order of the cells in the input files does not matter"""
    a = ctx.run(sc, p); s = copy.deepcopy(sc)
    for n in x['which']: s['inputs'][n]['reverse'] = True
    b = ctx.cached(s, ref_plan(p))
    if fails(a) or fails(b): return [('toolorder:outcome', why(a) + why(b))] if fails(a) != fails(b) else []
    try: u, v = a.out(sc['outs'][0]['out'])['ElMagField'], b.out(sc['outs'][0]['out'])['ElMagField']
    except Bad as e: return [('toolorder:unreadable', str(e))]
    if 'target.h5' in x['which']: v = v[::-1]
    return close_to('toolorder:cell', u, v, 1e-7, 'fields with the cells of %s in reverse order' % ' and '.join(x['which']))

def chk_toolplace(ctx, sc, p, x):
    """the fields are the same when they are written back to one of the files that were read"""
    a, b = ctx.run(sc, p), copy.deepcopy(sc); scen.to_file(b, 'out.h5'); b = ctx.cached(b, ref_plan(p)); n = sc['outs'][0]['out']
    if fails(b): return []
    if fails(a): return [('toolplace:outcome', 'written to %s: %s; %s' % (n, why(a), '; '.join(error_lines(a)[:2])))]
    try: u, v = a.out(n), b.out('out.h5')
    except Bad as e: return [('toolplace:unreadable', str(e))]
    if sorted(u) != sorted(v): return [('toolplace:content', '%s holds %s instead of %s' % (n, sorted(u), sorted(v)))]
    return [('toolplace:value', '%s of %s differs from the same run with an output file of its own' % (k, n)) for k in sorted(v) if not np.array_equal(np.asarray(u[k]), np.asarray(v[k]), equal_nan=True)][:1]

def chk_toollinear(ctx, sc, p, x):
    s = copy.deepcopy(sc); s['inputs']['source.h5']['scale'] = 2.0
    a, b = ctx.run(sc, p), ctx.run(s, p)
    if fails(a) or fails(b): return [('toollinear:outcome', why(a) + why(b))] if fails(a) != fails(b) else []
    try: u, v = a.out(sc['outs'][0]['out'])['ElMagField'], b.out(sc['outs'][0]['out'])['ElMagField']
    except Bad as e: return [('toollinear:unreadable', str(e))]
    return close_to('toollinear:field', v, 2 * u, 1e-9, 'fields of a source of twice the strength')

def gen_tool(prog, i, r):
    w = r.choice([[], [], [], ['cells'], ['cells'], ['tiny'], ['tiny'], ['tiny']] + [['fan']] * (i % 12 == 7)); sc = scen.make_tool(prog, r.randrange(10**9), w); s0 = r.randrange(1, 10**9)
    pre = [0, 20, 60, 200, 1000] if w == ['tiny'] else [0, 300, 1000, 5000, 50000]
    for k in range(4): yield 'threads', sc, tplan(r, ranks=1, threads=[r.choice([2, 3, 4, 5, 7, 8])], seed=s0, preempt=r.choice(pre)), {'races': r.choice([0, 0.02, 0.2]) if k < 2 else 0}
    if i % 2 == 0: yield 'toolcells', sc, tplan(r, ranks=1, threads=[r.choice([1, 2, 3, 4, 8])], seed=s0), {'pick': [r.randrange(64) for _ in range(2)]}
    if i % 3 == 0: yield 'toolorder', sc, tplan(r, ranks=1, threads=[r.choice([1, 2, 3, 4, 8])], seed=s0), {'which': r.choice([['source.h5'], ['target.h5'], ['source.h5', 'target.h5']])}
    if i % 4 == 0: yield 'toollinear', sc, tplan(r, ranks=1, threads=[r.choice([1, 2, 3, 4, 8])], seed=s0), {}
    if i % 5 == 0: b = copy.deepcopy(sc); scen.to_file(b, r.choice(['source.h5', 'target.h5'])); yield 'toolplace', b, tplan(r, ranks=1, threads=[r.choice([1, 2, 4])], seed=s0), {}
def gen_C07(i, r): return gen_tool('propagate', i, r)
def gen_C08(i, r): return gen_tool('reflection', i, r)

# ------------------------------------------------------------------ C09 C18
def history(ctx, sc, p):
    """coordinates of all particles after every step, from a run that does nothing else"""
    s = copy.deepcopy(sc); s['observers'] = []
    s['tracking'] = [t for t in s['tracking'] if t['kind'] == 'fel']
    for b in s['beam']:
        for k in ('log', 'traj'):
            if k in b: del b[k]
        b['xml'] = re.sub(r'<(log|trajectories)\b[^>]*/>', '', b['xml'])
    s['beam'] = [b for b in s['beam'] if b['kind'] != 'probe']
    s = scen.drop_unused(with_watch(s, range(sc['nots'] + 1), 'watch-sdds', 'h'))
    a = ctx.cached(s, ref_plan(p))
    if fails(a): return None, s
    H = []
    for k in range(sc['nots'] + 1):
        o = a.out('h%d.sdds' % k); H.append(np.array([o['col.' + c] for c in ('t', 'x', 'y', 'z', 'px', 'py', 'pz')]).T)
    return H, s

def near(a, b, rel, off=0.0):
    a, b = np.asarray(a, float), np.asarray(b, float)
    return bool(((np.abs(a - b) <= rel * np.maximum(np.abs(a), np.abs(b)) + off) | (np.isnan(a) & np.isnan(b))).all())

def chk_history(ctx, sc, p, x):
    H, hs = history(ctx, sc, p); a = ctx.run(sc, p)
    if H is None: return []
    if fails(a): return [] if fails(ctx.cached(sc, ref_plan(p))) else [('history:outcome', why(a))]
    o = []; N = sc['nots']
    # the history itself: k steps take k*dt
    for k in range(N + 1):
        if H[k].shape != H[0].shape: return [('history:particles', 'step %d has %d particles, step 0 %d' % (k, len(H[k]), len(H[0])))]
        if len(H[k]) and np.abs(H[k][:, 0] - H[0][:, 0] - k * sc['dt']).max() > 0.02 * sc['dt']:
            return [('history:time', 'after %d steps the time is t0 + %.3f dt' % (k, float((H[k][:, 0] - H[0][:, 0]).max() / sc['dt'])))]
    for n, it in scen.outputs(sc).items():
        try:
            if it['kind'] == 'watch':
                if not eqnan(a.out(n)['electrons'], H[it['step']][:, 1:]): o.append(('history:watch', '%s: not the coordinates after step %d' % (n, it['step'])))
            elif it['kind'] == 'watch-sdds':
                d = a.out(n); w = np.array([d['col.' + c] for c in ('t', 'x', 'y', 'z', 'px', 'py', 'pz')]).T
                if not eqnan(w, H[it['step']]): o.append(('history:watch-sdds', '%s: not the coordinates after step %d' % (n, it['step'])))
                elif len(w):
                    pp = np.linalg.norm(w[:, 4:], axis=1)
                    if not (near(d['col.p'], pp, 1e-9) and near(d['col.gamma'], np.sqrt(1 + pp * pp), 1e-9) and near(d['col.xp'], w[:, 4] / w[:, 6], 1e-9) and near(d['col.yp'], w[:, 5] / w[:, 6], 1e-9)):
                        o.append(('history:watch-derived', '%s: derived columns are not consistent' % n))
        except Bad as e: o.append(('history:unreadable', '%s: %s' % (n, e)))
    for t in sc['tracking']:
        if t['kind'] != 'fel' and not 0 <= t['step'] <= N and a.exists(t['out']): o.append(('history:unwanted', '%s: written though the beam never reaches step %d' % (t['out'], t['step'])))
    at = 0
    for b in sc['beam']:
        m = b.get('n', 0); sl = slice(at, at + m); at += m
        try:
            if 'log' in b:
                n = b['log']['out']; st = b['log']['step']; d = a.out(n); ks = list(range(0, N + 1, st))
                if len(d['col.t']) != len(ks) or int(d['par.NumberTimeSteps']) != len(ks): o.append(('history:plog-records', '%s: %d records instead of %d' % (n, len(d['col.t']), len(ks)))); continue
                if int(d['par.NumberParticles']) != m: o.append(('history:plog-particles', '%s: %s particles instead of %d' % (n, d['par.NumberParticles'], m)))
                if b.get('q') is not None and m and abs(float(d['par.TotalCharge']) - b['q']) > 1e-6 * abs(b['q']):
                    o.append(('history:plog-charge', '%s: charge %r' % (n, float(d['par.TotalCharge']))))
                if not m: continue
                fr = re.search(r'bunching-freq="([^"]+)"', b['xml'])
                for j, k in enumerate(ks):
                    h = H[k][sl]; X = h[:, 1:4]; P = h[:, 4:]; pn = np.linalg.norm(P, axis=1); L = np.abs(X).max() + 1e-30
                    ok = near(d['col.t'][j], h[:, 0].mean(), 1e-9, 1e-6 * sc['dt'])
                    for c, v in zip('xyz', range(3)):
                        ok &= near(d['col.%s_av' % c][j], X[:, v].mean(), 1e-9, 1e-12 * L) and near(d['col.bg%s_av' % c][j], P[:, v].mean(), 1e-9, 1e-12 * pn.max())
                        ok &= near(d['col.%s_rms' % c][j], X[:, v].std(), 1e-7, 1e-12 * L)
                    ok &= near(d['col.gamma'][j], np.sqrt(1 + pn * pn).mean(), 1e-9) and near(d['col.delta'][j], pn.std() / pn.mean(), 1e-7, 1e-12)
                    if fr: ok &= near(d['col.BF'][j], abs(np.exp(2j * math.pi * float(fr.group(1)) * X[:, 2] / 299792458.0).mean()), 1e-6, 1e-9)
                    if not ok: o.append(('history:plog', '%s: record %d does not hold the values of step %d' % (n, j, k))); break
            if 'traj' in b:
                n = b['traj']['out']; st = b['traj']['step']; d = a.out(n)['Trajectories']; ks = list(range(0, N + 1, st)); np_ = min(m, b['traj']['np'])
                if d.shape != (len(ks), np_, 6): o.append(('history:traj-records', '%s: %s instead of %s' % (n, d.shape, (len(ks), np_, 6)))); continue
                for j, k in enumerate(ks):
                    if not eqnan(d[j], H[k][sl][:np_, 1:]): o.append(('history:traj', '%s: record %d does not hold the coordinates of step %d' % (n, j, k))); break
            if 'probe' in b:
                n = b['probe']['out']; st = b['probe']['step']; d = a.out(n)['Probe']; ks = list(range(0, N + 1, st)); R = p['ranks']; tot = len(H[0])
                np_ = min(b['probe']['number'], -(-tot // R))
                if d.shape[:2] != (len(ks), np_): o.append(('history:probe-records', '%s: %s instead of %s' % (n, d.shape, (len(ks), np_)))); continue
                for j, k in enumerate(ks):
                    if not eqnan(d[j][:, :7], H[k][:np_]): o.append(('history:probe', '%s: record %d does not hold the coordinates of step %d' % (n, j, k))); break
        except Bad as e: o.append(('history:unreadable', str(e)))
    return o

def chk_short(ctx, sc, p, x):
    """a run that ends after k steps leaves the coordinates a longer run passes at step k"""
    H, hs = history(ctx, sc, p)
    if H is None: return []
    k = x['k'] % (sc['nots'] + 1)
    s = copy.deepcopy(hs); s['nots'] = k; s['tracking'] = [t for t in s['tracking'] if t['kind'] == 'fel']; s = with_watch(s, [k])
    a = ctx.run(s, p)
    if fails(a): return [('short:outcome', 'run of %d steps: %s' % (k, why(a)))]
    try: w = a.out('zz%d.h5' % k)['electrons']
    except Bad as e: return [('short:unreadable', 'run of %d steps: %s' % (k, e))]
    if not eqnan(w, H[k][:, 1:]): return [('short:steps', 'a run of %d steps ends with other coordinates than a run of %d steps has at step %d' % (k, sc['nots'], k))]
    return []

def gen_C09(i, r):
    sc = scen.make(r.randrange(10**9), ['nosource', 'noobs', 'watch', 'logs'] + (['probe'] if r.random() < 0.5 else []) + (['nofel'] if r.random() < 0.7 else []))
    s0 = r.randrange(1, 10**9)
    for _ in range(2): yield 'history', sc, rnd_plan(r, seed=s0), {}
    if i % 2 == 0: yield 'short', sc, rnd_plan(r, seed=s0), {'k': r.randrange(100)}

def chk_snapshot(ctx, sc, p, x):
    H, hs = history(ctx, sc, p); a = ctx.run(sc, p)
    if H is None: return []
    if fails(a): return [] if fails(ctx.cached(sc, ref_plan(p))) else [('snapshot:outcome', why(a))]
    o = []; T = np.array([h[:, 0] for h in H])
    for n, it in scen.outputs(sc).items():
        if it['kind'] != 'snapshot' or it['source'] != 'beam': continue
        try: d = a.out(n)
        except Bad as e: o.append(('snapshot:unreadable', '%s: %s' % (n, e))); continue
        if 'ParticleCoordinates' not in d:
            if len(H[0]): o.append(('snapshot:missing', '%s holds no particle coordinates' % n))
            continue
        w = d['ParticleCoordinates']
        if w.shape != (len(H[0]), 6): o.append(('snapshot:number', '%s: %s instead of %d particles' % (n, w.shape, len(H[0])))); continue
        if int(d.get('ParticleCoordinates@N_particles', len(w))) != len(w): o.append(('snapshot:number', '%s: N_particles' % n))
        t = it['t0']
        for q in range(len(w)):
            k = int(np.searchsorted(T[:, q], t)) # T[k-1] < t <= T[k]
            if k == 0 and t < T[0, q] or k > len(T) - 1: want = np.zeros(6)
            elif k == 0: want = H[0][q, 1:]
            else:
                fr = (t - T[k - 1, q]) / (T[k, q] - T[k - 1, q]); want = H[k - 1][q, 1:] * (1 - fr) + H[k][q, 1:] * fr
            L = max(np.abs(want[:3]).max(), 1e-12); M = max(np.abs(want[3:]).max(), 1e-6)
            if np.abs(w[q, :3] - want[:3]).max() > 1e-6 * L or np.abs(w[q, 3:] - want[3:]).max() > 1e-6 * M:
                o.append(('snapshot:coordinates', '%s: particle %d is at %s instead of %s' % (n, q, w[q], want))); break
    return o

def gen_C18(i, r):
    sc = scen.make(r.randrange(10**9), ['nosource', 'snap', 'beamobs', 'obs', 'noprobe'] + (['nofel'] if r.random() < 0.8 else []))
    ob = [o for o in sc['observers'] if o['kind'] == 'snapshot'] or sc['observers'][:1]
    if r.random() < 0.7: sc['observers'] = ob
    s0 = r.randrange(1, 10**9)
    if r.random() < 0.3:     # particles that start at different times, snapshots before, between and after them
        for b in sc['beam']:
            if b['kind'] in ('particle', 'bunch') and r.random() < 0.5: b['t0'] = float(scen.f(sc['dt'] * r.choice([r.uniform(-2, 3), r.uniform(0, sc['nots'])]))); b['xml'] = re.sub(r'<time t0="[^"]*"', '<time t0="%s"' % scen.f(b['t0']), b['xml'])
        st = [b.get('t0', 0.0) for b in sc['beam']] + [0.0]
        for q in sc['observers']:
            if q['kind'] == 'snapshot':
                q['t0'] = float(scen.f(r.choice([r.uniform(min(st), max(st)), r.choice(st), r.choice(st) + sc['dt'] * r.randint(0, sc['nots']), r.choice(st) + sc['dt'] * sc['nots'] * r.uniform(0.5, 1.1), min(st) - sc['dt'] * r.random()])))
                q['xml'] = re.sub(r'<time t0="[^"]*"', '<time t0="%s"' % scen.f(q['t0']), q['xml'])
    for _ in range(2): yield 'snapshot', scen.drop_unused(sc), rnd_plan(r, seed=s0), {}

# ------------------------------------------------------------------ C10 C11 C19
def chk_finish(ctx, sc, p, x):
    a = ctx.run(sc, p); o = []
    if off_grid(ctx, sc, p, a): return []
    if fails(a): o.append(('finish:%s' % a.r.outcome, why(a)))
    else:
        k = a.r.said('TEUFEL run finished') if sc['prog'] == 'teufel' else 1
        if k != 1: o.append(('finish:message', 'the finish message was printed %d times' % k))
        for n, it in scen.outputs(sc).items():
            if not a.good(n): o.append(('finish:output', '%s was not written' % n))
    for v, t in a.r.viol:
        if v in ('collective-mismatch', 'mpi-usage'): o.append(('finish:' + v, t))
    return o

def gen_C10(i, r):
    k = r.random(); w = []
    if k < 0.15: w = ['small']
    elif k < 0.3: w = ['source']
    elif k < 0.45: w = ['fel']
    elif k < 0.6: w = ['obs']
    elif k < 0.7: w = ['long']
    if k > 0.93: sc = scen.make_tool(r.choice(['propagate', 'reflection']), r.randrange(10**9))
    else:
        sc = scen.make(r.randrange(10**9), w)
        if r.random() < 0.12 : sc['nots'] = r.choice([0, 1, 2])
        if r.random() < 0.08:
            sc['beam'] = [b for b in sc['beam'] if b['kind'] == 'probe' and False]; sc['tracking'] = [t for t in sc['tracking'] if t['kind'] != 'fel']; scen.drop_unused(sc)
    for _ in range(3): yield 'finish', sc, rnd_plan(r, ranks=1 if sc['prog'] != 'teufel' else r.choice([1, 2, 3, 4, 5, 6, 7, 8])), {}

def chk_host(ctx, sc, p, x):
    q = copy.deepcopy(p); q.update(clockmode=0, procmode=0)
    return cmp_runs('host', ctx.run(sc, p), ctx.cached(sc, q), sc, tol=None)

def gen_C11(i, r):
    if r.random() < 0.2: sc = scen.make_tool(r.choice(['propagate', 'reflection']), r.randrange(10**9)); rk = 1
    else: sc = scen.make(r.randrange(10**9), ['obs'] if r.random() < 0.6 else ['long', 'obs']); rk = r.choice([1, 2, 3, 4, 6])
    p = rnd_plan(r, ranks=rk)
    for _ in range(3):
        q = copy.deepcopy(p); q['clockmode'] = r.choice([0, 1, 2, 2, 3, 4, 4, 5, 6, 7]); q['procmode'] = r.choice([0, 0, 1, 2, 3, 4, 5, 6, 7])
        if q['clockmode'] or q['procmode']: yield 'host', sc, q, {}

def pristine(sc):
    """the inputs as they were before the run"""
    d = tempfile.mkdtemp(prefix='in'); scen.materialise(sc, d); o = {}
    for n in sc['inputs']:
        try:
            with open(os.path.join(d, n), 'rb') as f: o[n] = f.read()
        except OSError: o[n] = None
    shutil.rmtree(d, ignore_errors=True); return o

def chk_share(ctx, sc, p, x):
    a = ctx.run(sc, p); b = ctx.cached(sc, ref_plan(p))
    if off_grid(ctx, sc, p, a): return []
    o = cmp_runs('share', a, b, sc, skip=('probe',))
    if fails(a): return o if not fails(b) else [('share:outcome', why(a))]
    outs = scen.outputs(sc)
    for n, v in pristine(sc).items():
        if n in outs: continue
        try:
            with open(os.path.join(a.dir, n), 'rb') as f: w = f.read()
        except OSError: w = None
        if v != w and not n.endswith('.h5'): o.append(('share:input', 'the input file %s was changed by the run' % n))
        elif v != w:
            try:
                d = readers.compare(a.out(n), b.out(n))
                if d: o.append(('share:input', '%s: %s' % (n, d)))
            except Bad as e: o.append(('share:input', '%s: %s' % (n, e)))
    for n in sorted(set(os.listdir(a.dir)) | set(os.listdir(b.dir))):
        if n in outs or n in sc['inputs'] or not n.endswith(('.h5', '.sdds')): continue
        if not (a.good(n) and b.good(n)): o.append(('share:diagnostic', '%s is not readable' % n)); continue
        d = readers.compare(a.out(n), b.out(n))
        if d: o.append(('share:diagnostic', '%s: %s' % (n, d)))
    return o

def gen_C19(i, r):
    sc = scen.make(r.randrange(10**9), ['source'] + r.choice([['small', 'noobs'], ['small'], ['obs', 'small'], ['sdds', 'small', 'noobs']])) if i % 4 else scen.make(r.randrange(10**9), ['nosource', 'obs', 'sdds', 'nofel'])
    s0 = r.randrange(1, 10**9)
    for _ in range(2): yield 'share', sc, rnd_plan(r, ranks=many(r), psw=r.choice([0.3, 0.6, 0.9, 1.0]), seed=s0), {}

# ------------------------------------------------------------------ faults
ERR = re.compile(r'error|fail|unable|cannot|can not|exception|mismatch|less rows|not found|could not|warning|abort|bad_alloc', re.I)
def error_lines(run): return [t for _, _, t in run.r.lines() if ERR.search(t) and 'HDF5-DIAG' not in t and 'time elapsed' not in t]
def new_errors(a, base):
    from collections import Counter
    c = Counter(error_lines(a)); c.subtract(Counter(error_lines(base))); return [k for k, v in c.items() if v > 0]

def announced(sc, run):
    """name -> True for every output file the run reported as written"""
    ok = {}; cur = None; watch = None; obs = None; outs = scen.outputs(sc)
    for r, e, t in run.r.lines():
        if r not in (0, -1): continue
        m = re.search(r'writing watch point (\S+)', t)
        if m: watch = m.group(1); continue
        m = re.search(r'^(-?\d+) particles written', t.strip())
        if m and watch:
            if int(m.group(1)) >= 0: ok[watch] = True
            watch = None; continue
        m = re.search(r'computing observer No\. (\d+)', t)
        if m:
            k = int(m.group(1)) - 1; obs = sc['observers'][k]['out'] if k < len(sc.get('observers', [])) else None; cur = None; continue
        if 'Observer output file written' in t and obs: ok[obs] = True; continue
        m = re.search(r'writing (?:probe data to|HDF5 file|SDDS file) (\S+)', t)
        if m: cur = m.group(1) if 'SDDS' not in t else None; continue
        if 'writing HDF5 done' in t and cur: ok[cur] = True; cur = None
    return {k: v for k, v in ok.items() if k in outs}

def file_state(a, base, sc, n, it, init):
    """'same' as in the undisturbed run, 'untouched', or a description of what is wrong"""
    if not base.good(n): return 'same'
    if not a.exists(n): return 'missing'
    d = differ(a, base, n, it)
    if d is None: return 'same'
    if n in init:
        with open(os.path.join(a.dir, n), 'rb') as f:
            if f.read() == init[n]: return 'untouched'
    return d

def base_plan(p):
    q = no_faults(p); q.update(replay=0, sd=[], pd=[]); return q

def chk_honest(ctx, sc, p, x):
    """C12: a failed output is never reported as written"""
    base = ctx.cached(sc, base_plan(p))
    if fails(base): return []
    a = ctx.run(sc, p); o = []; ann = announced(sc, a); init = pristine(sc); bad = []
    for n, it in scen.outputs(sc).items():
        st = file_state(a, base, sc, n, it, init)
        if st == 'same': continue
        if n in ann: o.append(('honest:announced:%s' % it['kind'], '%s was reported as written, but: %s' % (n, st)))
        bad.append((n, it, st))
    if not fails(a) and bad:
        e = new_errors(a, base)
        if len(e) < 1 or (p['diskfull'] >= 0 and sum(1 for t in error_lines(a)) - len(error_lines(base)) < len(bad)):
            n, it, st = bad[0]
            if not any(k.startswith('honest:announced') for k, _ in o): o.append(('honest:silent:%s' % it['kind'], 'no error was reported and the run ended as success, but %s: %s' % (n, st)))
    return o

def of_output(f, names):
    """the output a file belongs to: itself, or the one it is renamed to when complete"""
    for n in names:
        if f == n or f.startswith(n + '.') or f.startswith(n + '~'): return n
    return None
def fault_sites(run, sc, names=None, ops=None, ranks=None):
    """(rank, op, file, count) of the file operations of a run"""
    return [(k[0], k[1], k[2], v) for k, v in sorted(run.r.io.items()) if (names is None or of_output(k[2], names)) and (ops is None or k[1] in ops) and (ranks is None or k[0] in ranks)]

RAW_OUT = ('openw', 'write', 'closew', 'trunc', 'sync', 'rename')
LIB_WR = ('H5Fcreate', 'H5Dcreate2', 'H5Dwrite', 'H5Acreate2', 'H5Awrite', 'H5Screate', 'H5Screate_simple', 'H5Pcreate', 'H5Pclose', 'SDDS_InitializeOutput', 'SDDS_DefineColumn', 'SDDS_DefineSimpleParameter',
          'SDDS_WriteLayout', 'SDDS_StartPage', 'SDDS_SetParameters', 'SDDS_SetRowValues', 'SDDS_WritePage', 'SDDS_Terminate')
LIB_CL = ('H5Fclose', 'H5Aclose', 'H5Dclose', 'H5Sclose')
LIB_RD = ('H5Fopen', 'H5Lexists', 'H5Aexists', 'H5Dopen2', 'H5Dread', 'H5Aopen_name', 'H5Aread', 'SDDS_InitializeInput', 'SDDS_ReadPage', 'SDDS_GetColumnInDoubles', 'SDDS_GetParameterAsDouble', 'SDDS_GetParameterAsLong')
OUT_OPS = RAW_OUT + LIB_WR + LIB_CL
def out_fault(r, site):
    rk, op, f, n = site
    if op[:2] in ('H5', 'SD'): return dict(op=op, file=f, nth=r.randrange(1, n + 1), err=5, sticky=int(r.random() < 0.2), rank=-1)
    e = r.choice([28, 5, 122]) if op in ('write', 'closew', 'sync', 'trunc') else r.choice([13, 28, 24, 30, 2, 5])
    d = dict(op=op, file=f, nth=r.randrange(1, n + 1), err=e, sticky=int(r.random() < 0.5), rank=-1)
    if op == 'write' and r.random() < 0.3: d['shortto'] = r.choice([0, 1, 7, 100, 4000])
    return d

def pick_site(r, sites):
    """spread over files and operations, not over counts"""
    fs = sorted({s[2] for s in sites}); f = r.choice(fs); ops = sorted({s[1] for s in sites if s[2] == f})
    raw = [o for o in ops if o[:2] not in ('H5', 'SD')]; lib = [o for o in ops if o not in raw]
    op = r.choice(raw if raw and (not lib or r.random() < 0.5) else lib)
    return r.choice([s for s in sites if s[2] == f and s[1] == op])

def scen_out(r):
    w = r.choice([['obs', 'logs'], ['obs'], ['watch', 'logs', 'noobs'], ['watch', 'obs', 'logs', 'probe'], ['fel', 'noobs', 'logs'], ['fel', 'watch', 'obs']])
    return scen.make(r.randrange(10**9), ['small', 'nosource'] + w)

def gen_C12(i, r, ctx=None):
    if r.random() < 0.12: sc = scen.make_tool(r.choice(['propagate', 'reflection']), r.randrange(10**9), r.choice([['tiny'], []])); p = rnd_plan(r, ranks=1)
    else: sc = scen_out(r); p = rnd_plan(r, ranks=r.choice([1, 1, 2, 3]), threads=[1])
    p['redorder'] = 0
    base = ctx.cached(sc, base_plan(p)); outs = scen.outputs(sc)
    sites = fault_sites(base, sc, outs, OUT_OPS)
    if fails(base) or not sites: return
    for _ in range(5):
        q = copy.deepcopy(p); q['io'] = [out_fault(r, pick_site(r, sites))]; yield 'honest', sc, q, {}
    q = copy.deepcopy(p); q['diskfull'] = r.choice([0, r.randrange(0, 3000), r.randrange(0, 30000)]); yield 'honest', sc, q, {}

def chk_others(ctx, sc, p, x):
    """C13: all files but the failing one are those of an undisturbed run"""
    base = ctx.cached(sc, base_plan(p))
    if fails(base): return []
    a = ctx.run(sc, p); o = []; init = pristine(sc)
    if not a.r.fired(): return []
    hit = {of_output(f['file'], scen.outputs(sc)) or f['file'] for f in p['io']}
    if fails(a): o.append(('others:outcome', 'a failure with %s ended the run: %s' % (', '.join(sorted(hit)), why(a))))
    for n, it in scen.outputs(sc).items():
        if n in hit: continue
        st = file_state(a, base, sc, n, it, init)
        if st != 'same': o.append(('others:%s' % it['kind'], '%s suffered from the failure with %s: %s' % (n, ', '.join(sorted(hit)), st)))
    return o

def gen_C13(i, r, ctx=None):
    sc = scen_out(r); p = rnd_plan(r, ranks=r.choice([1, 2, 3, 4]), threads=[1]); p['redorder'] = 0
    base = ctx.cached(sc, base_plan(p)); outs = scen.outputs(sc)
    # a mesh file is input and output - only its output may fail here
    sites = [z for z in fault_sites(base, sc, outs, OUT_OPS, [0]) if not (z[1] in LIB_CL and z[2] in sc['inputs'])]
    if fails(base) or not sites: return
    for _ in range(5):
        q = copy.deepcopy(p); q['io'] = [out_fault(r, pick_site(r, sites))]; yield 'others', sc, q, {}

def chk_survive(ctx, sc, p, x):
    """C14: announced files are complete after a kill"""
    base = ctx.cached(sc, base_plan(p))
    if fails(base): return []
    a = ctx.run(sc, p); o = []; ann = announced(sc, a)
    done = a.r.said('TEUFEL run finished') > 0
    for n, it in scen.outputs(sc).items():
        if not (n in ann or done): continue
        d = differ(a, base, n, it)
        if d: o.append(('survive:%s' % it['kind'], '%s was %s before the job was killed at event %s, but: %s' % (n, 'announced' if n in ann else 'part of a finished run', p['killat'], d)))
    return o

def gen_C14(i, r, ctx=None):
    if r.random() < 0.1: sc = scen.make_tool(r.choice(['propagate', 'reflection']), r.randrange(10**9), r.choice([['tiny'], []])); p = rnd_plan(r, ranks=1)
    else: sc = scen_out(r); p = rnd_plan(r, ranks=r.choice([1, 2, 3]), threads=[1])
    p['redorder'] = 0
    base = ctx.cached(sc, base_plan(p)); n = base.r.n.get('events', 0)
    if fails(base) or n < 5: return
    # kill points: anywhere, and right behind each announcement
    ev = sorted({e + d for rr, e, t in base.r.lines() if re.search('written|done', t) for d in (0, 1, 2)})
    ks = [r.randrange(1, n) for _ in range(4)] + [r.choice(ev) for _ in range(3) if ev]
    for k in ks:
        q = copy.deepcopy(p); q['killat'] = min(k, n); yield 'survive', sc, q, {}

def chk_nodefail(ctx, sc, p, x):
    """C15: the failure of a node is the failure of the run"""
    base = ctx.cached(sc, base_plan(p))
    if fails(base): return []
    a = ctx.run(sc, p); o = []; init = pristine(sc)
    if not a.r.fired(): return []
    outs = scen.outputs(sc); states = {n: file_state(a, base, sc, n, it, init) for n, it in outs.items() if it['kind'] != 'probe' or True}
    complete = all(v == 'same' for v in states.values())
    if a.r.outcome in ('deadlock', 'hang'): o.append(('nodefail:%s' % a.r.outcome, 'the run does not end after the failure of a node: %s' % why(a)))
    if a.r.outcome == 'ok' and not complete and not new_errors(a, base): o.append(('nodefail:success', 'the run ended as success, but %s' % '; '.join('%s: %s' % (n, v) for n, v in states.items() if v != 'same')))
    if p['rankkill'] and a.r.outcome == 'ok': o.append(('nodefail:success', 'the run ended as success though a node was killed'))
    if a.r.said('TEUFEL run finished') and a.r.outcome != 'ok' and not complete: o.append(('nodefail:message', 'the finish message was printed, but %s' % '; '.join('%s: %s' % (n, v) for n, v in states.items() if v != 'same')))
    for n, it in outs.items():
        if states[n] in ('same', 'missing', 'untouched') or not a.good(n): continue
        if n in announced(sc, a) or set(a.out(n)) == set(base.out(n)):
            o.append(('nodefail:file:%s' % it['kind'], '%s looks complete but differs from the undisturbed run: %s' % (n, states[n])))
    return o

def gen_C15(i, r, ctx=None):
    sc = scen.make(r.randrange(10**9), ['small', 'nosource'] + r.choice([['obs'], ['obs', 'beamobs'], ['watch', 'noobs', 'logs'], ['fel', 'obs', 'watch']]))
    p = rnd_plan(r, ranks=r.choice([2, 2, 3, 4, 6]), threads=[1]); p['redorder'] = 0; p['abortdelay'] = r.choice([0, 3, 8, 30])
    base = ctx.cached(sc, base_plan(p))
    if fails(base): return
    ev = [x['events'] for x in base.r.ranks]
    for _ in range(4):
        k = r.randrange(p['ranks']); q = copy.deepcopy(p)
        if ev[k] < 2: continue
        n = r.randrange(1, ev[k]) if r.random() < 0.5 else r.randrange(max(1, int(ev[k] * 0.6)), ev[k])
        q['rankkill'] = [k, n]; yield 'nodefail', sc, q, {}
    for _ in range(3):
        k = r.randrange(p['ranks']); q = copy.deepcopy(p); n = base.r.alloc.get(k, 0)
        if n < 2: continue
        q['alloc'] = [[k, r.randrange(1, n + 1) if r.random() < 0.6 else r.randrange(max(1, int(n * 0.7)), n + 1)]]; yield 'nodefail', sc, q, {}

def chk_input(ctx, sc, p, x):
    """C16: nothing is dropped silently"""
    healthy = copy.deepcopy(sc); healthy.pop('xmltruncate', None)
    for v in healthy['inputs'].values():
        for k in ('truncate', 'missing', 'claimed', 'spoil'): v.pop(k, None)
    base = ctx.cached(healthy, base_plan(p))
    if fails(base): return []
    a = ctx.run(sc, p); o = []
    if a.r.outcome in ('deadlock', 'hang', 'crash', 'mpi-error'): return [('input:%s' % a.r.outcome, 'unreadable input leads to: %s' % why(a))]
    if fails(a): return []
    if sc is healthy: return []
    init = pristine(sc); bad = []
    for n, it in scen.outputs(sc).items():
        st = file_state(a, base, sc, n, it, init)
        if st != 'same': bad.append((n, it, st))
    if not bad: return []
    e = new_errors(a, base)
    if not e: return [('input:silent', 'no error was reported and the run ended as success, but %s: %s' % (bad[0][0], bad[0][2]))]
    # reported: the results have to be those of the beam that was reported as read
    m = re.search(r'total number of particles : (\d+)', a.r.console)
    if m:
        N = int(m.group(1))
        for n, it in scen.outputs(sc).items():
            if it['kind'] == 'watch' and a.good(n):
                w = a.out(n)['electrons']
                if len(w) != N: o.append(('input:number', '%s holds %d particles, the run reported %d' % (n, len(w), N)))
    # and the same as in a run of one node with the same files
    if not p['io']:
        b = ctx.cached(sc, ref_plan(p)); o += cmp_runs('input:nodes', a, b, sc, TRACK)
    else:
        empty = copy.deepcopy(healthy)   # what is left if the bunch is dropped on all nodes
        hit = {f['file'] for f in p['io']}
        for f in hit:
            if f in empty['inputs'] and empty['inputs'][f]['type'] == 'sdds': empty['inputs'][f]['missing'] = True
        b = ctx.cached(empty, base_plan(p))
        if not fails(b):
            c = cmp_runs('input:mixed', a, b, sc, TRACK + OBS)
            if c: o += c
    return o

def chk_usage(ctx, sc, p, x):
    """C16: a run without the files it needs says so and fails on all nodes, it writes nothing"""
    a = ctx.run(sc, p); o = []
    if a.r.outcome != 'failed': return [('usage:outcome', 'called with %s: %s' % (sc['args'], why(a) or a.r.outcome))]
    if re.search(r'usage is|usage:|error|exception|cannot|not found', a.r.console, re.I) or error_lines(a): pass
    elif any('exception' in k['text'] and 'basic_string' not in k['text'] for k in a.r.ranks): pass   # the runtime library prints what the exception says
    else: o.append(('usage:silent', 'called with %s: no usage and no error is printed' % sc['args']))
    init = pristine(sc)
    for n in sorted(set(os.listdir(a.dir)) - set(init)):
        if n in scen.outputs(sc) or n in sc['args']: o.append(('usage:written', 'called with %s: %s was written' % (sc['args'], n)))
    return o

def chk_incomplete(ctx, sc, p, x):
    """C16: a description which lacks something essential stops the run on all nodes before anything is written"""
    healthy = {k: v for k, v in sc.items() if k != 'xmlmut'}
    if not scen.has(scen.xml(healthy), *sc['xmlmut']) or fails(ctx.cached(healthy, base_plan(p))): return []
    a = ctx.run(sc, p); what = 'description with %s of %s%s' % (sc['xmlmut'][0], sc['xmlmut'][1], ' ' + sc['xmlmut'][2] if sc['xmlmut'][2] else '')
    if a.r.outcome != 'failed': return [('incomplete:%s' % a.r.outcome, '%s: %s' % (what, why(a)))]
    init = pristine(sc); w = [n for n in scen.outputs(sc) if n not in init and os.path.exists(os.path.join(a.dir, n))]
    return [('incomplete:written', '%s: the run failed, but %s was written' % (what, w[0]))] if w else []

def chk_expr(ctx, sc, p, x):
    """C33: the same run with expressions in the place of numbers; what is printed is right"""
    s = dict(sc, expr=x['expr']); b = ctx.cached(sc, p)
    if fails(b): return []
    a = ctx.run(s, p); o = []
    if fails(a): return [('expr:outcome', 'numbers written as expressions: %s; %s' % (why(a), '; '.join(error_lines(a)[:2])))]
    m = [t for _, _, t in a.r.lines() if "can't evaluate" in t]
    if m: o.append(('expr:report', m[0]))
    got = collections.defaultdict(list)
    for rk, _, t in a.r.lines():
        m = re.match(r'calc : (P\d+) = (\S+)\s*$', t)
        if m: got[m.group(1)].append((rk, m.group(2)))
    for n, v in scen.expressed(scen.xml(sc), x['expr'])[1]:
        if not got[n]: o.append(('expr:print', '%s was not printed' % n))
        for rk, g in got[n]:
            if rk: o.append(('expr:node', 'node %d printed %s' % (rk, n)))
            try: bad = not abs(float(g) - v) <= (6e-4 * abs(v) or 0.1)
            except ValueError: bad = True
            if bad: o.append(('expr:value', '%s is %s instead of %g' % (n, g, v)))
    return o + cmp_runs('expr', a, b, sc, tol=None)

def chk_unreadable(ctx, sc, p, x):
    """C33: a number nobody can read is reported, or the run fails"""
    healthy = {k: v for k, v in sc.items() if k != 'xmlmut'}; base = ctx.cached(healthy, base_plan(p))
    if fails(base) or not scen.has(scen.xml(healthy), *sc['xmlmut']): return []
    a = ctx.run(sc, p); op, q, at, k, form = sc['xmlmut']; v = re.escape(form.split('%s')[-1])
    if a.r.outcome in ('deadlock', 'hang', 'mpi-error'): return [('unreadable:%s' % a.r.outcome, '%s of %s is %r: %s' % (at, q, form, why(a)))]
    if fails(a) and a.r.outcome != 'crash': return []
    if not [1 for rk, _, t in a.r.lines() if rk == 0 and re.search("evaluate|" + ERR.pattern, t, re.I) and t not in base.r.console]: return [('unreadable:silent', '%s of %s is %r: no error is reported' % (at, q, form))]
    return []

def gen_C33(i, r):
    w = r.choice([['obs'], ['fel', 'watch'], ['logs', 'probe', 'watch'], ['source', 'sdds'], ['obs', 'watch', 'probe'], []])
    for _ in range(2):
        sc = scen.make(r.randrange(10**9), w + ['small'] * (r.random() < 0.7)); sc.pop('calc', None)
        yield 'expr', sc, rnd_plan(r, ranks=many(r)), {'expr': r.randrange(10**9)}
    for _ in range(3):
        m = scen.unreadable(scen.xml(sc), r)
        if m: yield 'unreadable', dict(sc, xmlmut=m), rnd_plan(r, ranks=r.choice([1, 1, 2, 3]), threads=[1]), {}

SPOIL = {'mesh': [('drop', d, None, 0) for d in ('MeshCornerPoints', 'ObservationPosition', 'MeshTriangles')] + [('drop', d, a, 0) for d, a in (('MeshCornerPoints', 'Ncp'), ('ObservationPosition', 'Np'), ('ObservationTime', 'Nt'), ('ObservationTime', 'dt'))] +
                 [('attr', d, a, k) for d, a in (('MeshCornerPoints', 'Ncp'), ('ObservationPosition', 'Np'), ('ObservationTime', 'Nt')) for k in (-1, 1, 5)],
         'screen': [('drop', d, None, 0) for d in ('Screen', 'ElMagField')] + [('drop', 'Screen', a, 0) for a in ('Nx', 'Ny', 'NOTS', 'dt')] + [('drop', 'ElMagField', 't0', 0)] + [('attr', 'Screen', a, k) for a in ('Nx', 'Ny', 'NOTS') for k in (-1, 1, 3)]}
IN_OPS = ('openr', 'read') + LIB_RD
def gen_C16(i, r, ctx=None):
    if r.random() < 0.12: sc = scen.make_tool(r.choice(['propagate', 'reflection']), r.randrange(10**9), r.choice([['tiny'], ['tiny'], []])); p = rnd_plan(r, ranks=1, threads=[1])
    else: sc = scen.make(r.randrange(10**9), ['small', 'nofel'] + r.choice([['sdds', 'noobs', 'nosource', 'watch'], ['sdds', 'nosource'], ['source', 'noobs', 'watch'], ['obs', 'nosource'], ['sdds', 'source', 'obs']])); p = rnd_plan(r, ranks=r.choice([1, 2, 2, 3, 4]), threads=[1])
    p['redorder'] = 0
    base = ctx.cached(sc, base_plan(p))
    if fails(base): return
    names = [n for n in sc['inputs']] + ['input.xml'] * (sc['prog'] == 'teufel')
    if i % 10 == 0:
        s = copy.deepcopy(sc); full = scen.args(sc); s['args'] = r.choice([full[:k] for k in range(len(full))] + [['no-such-file'] + full[1:]] + ([full[:1] + ['no-such-file'] + full[2:]] if len(full) > 1 else [])); yield 'usage', s, p, {}
    sites = fault_sites(base, sc, names, IN_OPS)
    for _ in range(4):
        if not sites: break
        rk, op, f, n = pick_site(r, sites); q = copy.deepcopy(p)
        d = dict(op=op, file=f, nth=r.randrange(1, n + 1), err=r.choice([5, 13, 2, 116]) if op == 'openr' else 5, sticky=int(r.random() < 0.6), rank=r.choice([rk, rk, -1]))
        if d['rank'] >= 0 and op in ('openr', 'read') and d['rank'] != rk: d['rank'] = rk
        if op == 'read' and r.random() < 0.4: d['shortto'] = r.choice([0, 1, 100, 1000])
        if op == 'read' and r.random() < 0.3 and 'shortto' in d: d['sticky'] = 0
        if op[:2] in ('H5', 'SD'): d.update(err=5); d.pop('shortto', None)
        q['io'] = [d]; yield 'input', sc, q, {}
    for _ in range(3):
        s = copy.deepcopy(sc); n = r.choice(names)
        if n == 'input.xml': s['xmltruncate'] = r.uniform(0.0, 0.999)
        else:
            t = s['inputs'][n]['type']
            k = r.choice(['truncate', 'truncate', 'missing'] + (['claimed'] * 2 if t == 'sdds' else ['spoil'] * 2))
            if k == 'truncate': s['inputs'][n]['truncate'] = r.choice([0.0, r.random(), r.uniform(0.7, 0.99)])
            elif k == 'missing': s['inputs'][n]['missing'] = True
            elif k == 'spoil': s['inputs'][n]['spoil'] = [r.choice([z for z in SPOIL[t] if z[:3] != ('attr', 'ObservationTime', 'Nt') or s['inputs'][n].get('field')])]
            else: s['inputs'][n]['claimed'] = len(s['inputs'][n]['rows']) + r.choice([1, 2, 100, 100000])
        yield 'input', s, p, {}
    if sc['prog'] == 'teufel' and i % 2 == 0:
        z = copy.deepcopy(sc) if i % 4 else scen.make(r.randrange(10**9), ['small'] + r.choice([['obs'], ['fel', 'watch'], ['logs', 'probe', 'watch'], ['source', 'sdds']]))
        for _ in range(2): yield 'incomplete', dict(z, xmlmut=list(scen.essential(scen.xml(z), r))), p, {}

# ------------------------------------------------------------------ C20 C21
def chk_rerun(ctx, sc, p, x):
    """C20: the same run again, on what a killed or failed run left behind"""
    base = ctx.cached(sc, base_plan(p))
    if fails(base): return []
    a = ctx.run(sc, p); o = []
    if not a.r.fired() and not x.get('clean'): return []
    init = pristine(sc); outs = scen.outputs(sc)
    for n, v in init.items():
        if n in outs: continue
        try:
            with open(os.path.join(a.dir, n), 'rb') as f: w = f.read()
        except OSError: w = None
        if w != v: o.append(('rerun:input', 'the input file %s was changed by the interrupted run' % n))
    b = ctx.run(sc, dict(base_plan(p), sched=x['sched2']), start=a.dir)
    if fails(b): o.append(('rerun:outcome', 'the run cannot be repeated in its directory: %s; %s' % (why(b), '; '.join(error_lines(b)[:2])))); return o
    for n, it in outs.items():
        d = differ(b, base, n, it, None)
        if d: o.append(('rerun:%s' % it['kind'], '%s of the repeated run: %s' % (n, d)))
    return o

def gen_C20(i, r, ctx=None):
    if r.random() < 0.08: sc = scen.make_tool(r.choice(['propagate', 'reflection']), r.randrange(10**9), r.choice([['tiny'], []])); p = rnd_plan(r, ranks=1)
    elif r.random() < 0.3: sc = scen.make(r.randrange(10**9), ['small', 'source'] + r.choice([['obs'], ['watch', 'noobs']])); p = rnd_plan(r, ranks=r.choice([1, 2, 3]), threads=[1])
    else: sc = scen_out(r); p = rnd_plan(r, ranks=r.choice([1, 2, 3, 4]), threads=[1])
    p['redorder'] = 0
    base = ctx.cached(sc, base_plan(p)); n = base.r.n.get('events', 0)
    if fails(base) or n < 5: return
    def x(): return {'sched2': r.randrange(1, 10**9)}
    w = [e for rr, e, t in base.r.lines() if re.search('writ', t)]; lo = min(w or [1])
    for _ in range(4):
        q = copy.deepcopy(p); q['killat'] = r.randrange(max(1, min(lo, n - 1)), n) if r.random() < 0.8 else r.randrange(1, n); yield 'rerun', sc, q, x()
    sites = fault_sites(base, sc, scen.outputs(sc), OUT_OPS)
    for _ in range(2):
        if sites: q = copy.deepcopy(p); q['io'] = [out_fault(r, pick_site(r, sites))]; yield 'rerun', sc, q, x()
    q = copy.deepcopy(p); q['diskfull'] = r.choice([0, r.randrange(0, 3000), r.randrange(0, 30000)]); yield 'rerun', sc, q, x()
    ev = [z['events'] for z in base.r.ranks]; k = r.randrange(p['ranks'])
    if ev[k] > 2: q = copy.deepcopy(p); q['rankkill'] = [k, r.randrange(1, ev[k])]; yield 'rerun', sc, q, x()
    if r.random() < 0.3: yield 'rerun', sc, p, dict(x(), clean=1)

def keep_only(sc, keep):
    """the same input without the outputs that are not in keep"""
    s = copy.deepcopy(sc); s['observers'] = [o for o in s['observers'] if o['out'] in keep]
    s['tracking'] = [t for t in s['tracking'] if t['kind'] == 'fel' or t['out'] in keep]
    for t in s['tracking']:
        if t['kind'] == 'fel' and 'out' in t and t['out'] not in keep: t['xml'] = re.sub(r'<log\b[^>]*/>', '', t['xml']); del t['out']
    for b in s['beam']:
        for k, tag in (('log', 'log'), ('traj', 'trajectories')):
            if k in b and b[k]['out'] not in keep: del b[k]; b['xml'] = re.sub(r'<%s\b[^>]*/>' % tag, '', b['xml'])
    s['beam'] = [b for b in s['beam'] if b['kind'] != 'probe' or b['probe']['out'] in keep]
    return scen.drop_unused(s)

def chk_alone(ctx, sc, p, x):
    """C21: every output is the one a run asked for nothing else would write"""
    a = ctx.cached(sc, p)
    if off_grid(ctx, sc, p, a): return []
    outs = scen.outputs(sc); keep = [n for n in outs if n in x['keep']]
    if not keep: return []
    s = keep_only(sc, keep); b = ctx.run(s, p)
    if fails(a) or fails(b): return [('alone:outcome', '%s / alone: %s' % (why(a), why(b)))] if fails(a) != fails(b) else []
    o = []
    for n in keep:
        d = differ(a, b, n, outs[n], None)
        if d: o.append(('alone:%s' % outs[n]['kind'], '%s differs from that of a run which writes only %s: %s' % (n, ', '.join(keep), d)))
    return o

def chk_reorder(ctx, sc, p, x):
    """C21: the order in which outputs are requested is of no influence"""
    a = ctx.cached(sc, p); s = copy.deepcopy(sc); rr = __import__('random').Random(x['shuffle'])
    f = [t for t in s['tracking'] if t['kind'] == 'fel']; w = [t for t in s['tracking'] if t['kind'] != 'fel']; rr.shuffle(w); rr.shuffle(s['observers'])
    t = []
    for z in f: t.append(z)
    for z in w: t.insert(rr.randint(0, len(t)), z)
    s['tracking'] = t; b = ctx.run(s, p)
    # interactions stay in their order
    if [z for z in t if z['kind'] == 'fel'] != f: return []
    return cmp_runs('reorder', b, a, sc, tol=None)

def gen_C21(i, r):
    sc = scen.make(r.randrange(10**9), r.choice([['obs'], ['obs', 'watch', 'logs'], ['watch', 'logs', 'probe'], ['fel', 'watch', 'obs'], ['long', 'obs', 'watch']]) + (['nosource'] if r.random() < 0.9 else []))
    outs = sorted(scen.outputs(sc)); p = rnd_plan(r); p['redorder'] = 0
    if len(outs) < 2: return
    for k in r.sample(outs, min(2, len(outs))): yield 'alone', sc, p, {'keep': [k]}
    yield 'alone', sc, p, {'keep': r.sample(outs, r.randint(1, len(outs) - 1))}
    yield 'reorder', sc, p, {'shuffle': r.randrange(10**6)}

# ------------------------------------------------------------------ C22
OWN = re.compile(r'^\s*node \d|memory|elapsed|per node|trajectory storage|parallel computing on|^\s*-?\d+ step|reading|^\s*tracking step', re.I)
# read from the files by every node
EVERY = re.compile(r'^start tracking|SDDS|^[xys] = |dataset|not existing|error|warning|fail|cannot|can.t', re.I)
def report(run, rank=0): return [t.strip() for _, _, t in run.r.lines(rank) if t.strip() and not OWN.search(t)]
def chk_report(ctx, sc, p, x):
    a = ctx.run(sc, p); b = ctx.cached(sc, ref_plan(p))
    if fails(a) or fails(b): return [('report:outcome', why(a))] if fails(a) != fails(b) else []
    A, B = report(a), report(b); R = p['ranks']; N = scen.nop(sc); o = []
    if A != B:
        k = next((i for i, (u, v) in enumerate(zip(A, B)) if u != v), min(len(A), len(B)))
        o.append(('report:root', 'line %d of the report is %r instead of %r' % (k, A[k] if k < len(A) else None, B[k] if k < len(B) else None)))
    S = set(t.strip() for _, _, t in a.r.lines(0))
    for k in range(1, R):
        for t in report(a, k):
            if t not in S: o.append(('report:other', 'node %d reports %r, the root node does not' % (k, t))); break
            if not EVERY.search(t): o.append(('report:repeated', 'node %d repeats %r' % (k, t))); break
    m = re.search(r'total number of particles : (\d+)', a.r.console)
    if not m or int(m.group(1)) != N: o.append(('report:number', '%s particles reported, %d in the input' % (m and m.group(1), N)))
    for t in re.findall(r'(-?\d+) particles written', a.r.console):
        if int(t) != N: o.append(('report:written', '%s particles reported as written, %d in the beam' % (t, N))); break
    share = {}; done = {}; obs = collections.Counter()
    for rk, _, t in a.r.lines():
        m = re.match(r'node (\d+) tracking a beam of (\d+) particles', t)
        if m:
            if int(m.group(1)) != rk or rk in share: o.append(('report:share', 'node %d: %r' % (rk, t)))
            share[rk] = int(m.group(2))
        m = re.match(r'node (\d+) finished tracking (\d+) particles over (\d+) time steps', t)
        if m:
            if int(m.group(1)) != rk or rk in done or int(m.group(3)) != sc['nots']: o.append(('report:done', 'node %d: %r' % (rk, t)))
            done[rk] = int(m.group(2))
        m = re.match(r'node (\d+) done with observer (\d+)', t)
        if m: obs[(int(m.group(1)), int(m.group(2)))] += 1
    t = collections.Counter(rk for rk, _, t in a.r.lines() if re.match(r'time elapsed : \S+ s\s*$', t))
    if set(t) - {0} or t[0] != len(sc['observers']): o.append(('report:times', 'elapsed times were printed %s times for %d observers' % (dict(t), len(sc['observers']))))
    if sum(share.values()) != N or set(share) != set(range(R)): o.append(('report:share', 'the nodes track %s particles, the beam has %d' % (share, N)))
    if share and max(share.values()) > -(-N // R): o.append(('report:fair', 'the nodes track %s of %d particles' % (share, N)))
    if done != share: o.append(('report:done', 'the nodes finished %s of %s particles' % (done, share)))
    if obs != collections.Counter({(k, j + 1): 1 for k in range(R) for j in range(len(sc['observers']))}): o.append(('report:observers', 'the nodes report the observers %s' % sorted(obs.items())))
    return o

def gen_C22(i, r):
    sc = scen.make(r.randrange(10**9), r.choice([['obs'], ['watch', 'logs', 'noobs'], ['obs', 'watch', 'logs', 'probe'], ['fel', 'watch'], [], ['sdds'], ['source', 'small']])); s0 = r.randrange(1, 10**9)
    for _ in range(3): yield 'report', sc, rnd_plan(r, ranks=many(r), seed=s0), {}

# ------------------------------------------------------------------ C23 C24
def chk_files(ctx, sc, p, x):
    """C24: a node needs only a few files at the same time"""
    q = dict(p, maxfd=-1); b = ctx.cached(sc, q)
    if fails(b): return []
    a = ctx.run(sc, p)
    if fails(a): return [('files:outcome', 'with at most %d files open at a time: %s; %s' % (p['maxfd'], why(a), '; '.join(error_lines(a)[:2])))]
    return cmp_runs('files', a, b, sc, tol=None)

SCREENXML = re.compile(r'<position x="(\S+)" y="(\S+)" z="(\S+)"/><hpitch x="(\S+)" y="0" z="0" n="(\d+)"(?: dt="(\S+)")?/><vpitch x="0" y="(\S+)" z="0" n="(\d+)"(?: dt="(\S+)")?/><time t0="(\S+)" dt="(\S+)" n="(\d+)"')
def own_screen(path, ob, data):
    """a screen file as it is documented, with the geometry that was requested"""
    m = SCREENXML.search(ob['xml']); X = [float(m.group(j)) for j in (1, 2, 3)]
    dx, nx, dtx, dy, ny, dty, t0, dt, nt = float(m.group(4)), int(m.group(5)), float(m.group(6) or 0), float(m.group(7)), int(m.group(8)), float(m.group(9) or 0), float(m.group(10)), float(m.group(11)), int(m.group(12))
    with h5py.File(path, 'w') as h:
        ds = h.create_dataset('Screen', data=np.array([X, [0, 0, -1], [dx, 0, 0], [0, dy, 0]], float))
        for k, v in (('Nx', nx), ('Ny', ny), ('NOTS', nt)): ds.attrs.create(k, v, dtype='i4')
        for k, v in (('t0', t0), ('dt', dt), ('dtx', dtx), ('dty', dty)): ds.attrs[k] = v
        fd = h.create_dataset('ElMagField', data=data); fd.attrs['t0'] = t0; fd.attrs['dt'] = dt; fd.attrs.create('NOTS', nt, dtype='i4')
        x = np.array([[[X[0] + dx * (i - nx // 2), X[1] + dy * (j - ny // 2), X[2]] for j in range(ny)] for i in range(nx)])
        pd = h.create_dataset('ObservationPosition', data=x); pd.attrs.create('Nx', nx, dtype='i4'); pd.attrs.create('Ny', ny, dtype='i4')
    return dx * nx, dt * nt, nt

def by_script(path, w):
    """the file goes through TeufelScreen.read and .write of scripts/screen.py, as in the notebooks of the repository; w is what was requested"""
    f = os.path.join(os.environ.get('TEUFEL_REPO', '/repo'), 'scripts', 'screen.py')
    if not os.path.exists(f): return []
    m = {'__name__': 'teufel_screen'}
    try:
        with open(f) as h: exec(compile(h.read(), f, 'exec'), m)
    except ImportError: return []
    try:
        with contextlib.redirect_stdout(io.StringIO()): t = m['TeufelScreen'].read(path)
        nx, ny = t.shape(); e = w['Screen']; i, j = nx - 1, 0; E, B = t.getFieldTrace(i, j); F = w['ElMagField'][i, j]
        got = [nx, ny, t.nots, t.t0, t.dt, t.dtx, t.dty, *t.origin, *t.normal, *t.dX, *t.dY, *t.screenPos(i, j), t.getStartTime(i, j)]
        req = [w['Screen@' + k] for k in ('Nx', 'Ny', 'NOTS', 't0', 'dt', 'dtx', 'dty')] + list(e.flatten()) + [abs(e[2][0]) * (i - nx // 2), abs(e[3][1]) * (j - ny // 2), w['Screen@t0'] + w['Screen@dtx'] * (i - nx // 2) + w['Screen@dty'] * (j - ny // 2)]
        got, req = np.array(got, float), np.array(req, float)
        if (np.abs(got - req) > 1e-9 * np.abs(req) + 1e-18 * (np.abs(req) < 1e-9)).any(): return [('chain:script:geometry', 'scripts/screen.py sees %s, requested was %s' % (got.tolist(), req.tolist()))]
        if not np.array_equal(np.hstack([E, B]), F): return [('chain:script:field', 'scripts/screen.py sees another field trace in cell %d,%d' % (i, j))]
        P = float(np.dot(np.cross(F[:, :3], F[:, 3:]).sum(axis=0), -e[1]) / (4e-7 * math.pi) * w['Screen@dt']); g = float(t.totalPowerDensity(i, j))
        if not abs(g - P) <= 1e-9 * abs(np.cross(F[:, :3], F[:, 3:])).sum() / (4e-7 * math.pi) * float(w['Screen@dt']): return [('chain:script:power', 'scripts/screen.py: energy density %g, the field gives %g' % (g, P))]
        os.remove(path); t.write(path)
    except Exception as ex: return [('chain:script', 'scripts/screen.py: %s: %s' % (type(ex).__name__, ex))]
    return []

FIELDCOLS = ('Ex', 'Ey', 'Ez', 'Bx', 'By', 'Bz')
def screen_model(path, X, t):
    """field of a screen in the xy plane with the normal -z at X (relative to its centre) and times t; mask of the values on an edge of the recorded interval"""
    o = readers.read(path); a = o['ElMagField'].copy(); nx, ny, nt = a.shape[:3]; dt = float(o['Screen@dt']); dx, dy = o['Screen'][2][0], o['Screen'][3][1]; sx, sy = np.sign(dx), np.sign(dy)
    a[..., 2] = 0; a[..., 5] = 0; d = np.empty_like(a); d[:, :, 1:-1] = (a[:, :, 2:] - a[:, :, :-2]) / (2 * dt); d[:, :, 0] = (a[:, :, 1] - a[:, :, 0]) / dt; d[:, :, -1] = (a[:, :, -1] - a[:, :, -2]) / dt
    f = np.zeros((len(t), 6)); edge = np.zeros(len(t), bool)
    for i in range(nx):
        for j in range(ny):
            R = X - np.array([dx * (i - nx // 2), dy * (j - ny // 2), 0.0]); r = np.linalg.norm(R); c = -R[2] / r
            u = (t - r / scen.C - float(o['Screen@dtx']) * (i - nx // 2) - float(o['Screen@dty']) * (j - ny // 2)) / dt
            edge |= (np.abs(u) < 1e-6) | (np.abs(u - nt + 1) < 1e-6); ok = (u >= 0) & (u <= nt - 1); k = np.clip(np.floor(u).astype(int), 0, nt - 2); w = (u - k)[:, None]
            v = (a[i, j, k] * (1 - w) + a[i, j, k + 1] * w) * (-c / r ** 2) + (d[i, j, k] * (1 - w) + d[i, j, k + 1] * w) * ((1 - c) / (r * scen.C))
            f += np.where(ok[:, None], v, 0)
    return f * abs(dx * dy) / (4 * math.pi), edge

def chk_chain(ctx, sc, p, x):
    """C23: what one run wrote is read by the next: the same as from a file of the same fields written independently"""
    a = ctx.run(sc, p)
    if fails(a): return []
    if sc['prog'] == 'teufel':
        ob = [o for o in sc['observers'] if o['kind'] in ('screen', 'mesh')][:1]
        if not ob: return []
        ob = ob[0]; n = ob['out']; kind = ob['kind']
    else: n = sc['outs'][0]['out']; kind = 'mesh'
    if kind == 'screen' and not SCREENXML.search(ob['xml']): return []
    try: data = fields(a, n)
    except Bad as e: return [('chain:unreadable', '%s: %s' % (n, e))]
    top = tempfile.mkdtemp(prefix='chain', dir=ctx.lab.base)
    try:
        A, B = top + '/a', top + '/b'; r = __import__('random').Random(x['seed2'])
        if kind == 'screen':
            os.makedirs(A); os.makedirs(B); w, T, nt = own_screen(B + '/chain.h5', ob, data); shutil.copy(os.path.join(a.dir, n), A + '/chain.h5')
            D = w * r.uniform(1, 3); f = scen.f; z = r.uniform(-1, 1) * D; t = r.choice([0.0, T * r.uniform(-1, 1)]); t0 = t + D / scen.C - 0.1 * T; P = w * r.uniform(-1, 1), w * r.uniform(-1, 1)
            s = {'prog': 'teufel', 'dt': T / 8, 'nots': 6, 'inputs': {}, 'lattice': [{'kind': 'screen', 'input': 'chain.h5', 'xml': '<screen name="S" file="chain.h5"><position x="0" y="0" z="%s" t="%s"/></screen>' % (f(z), f(t))}],
                 'beam': [{'kind': 'particle', 'n': 1, 'xml': '<particle gamma="5.0" charge="-1" cmr="-1"><time t0="%s"/><position x="0" y="0" z="%s"/><momentum x="0" y="0" z="1"/></particle>' % (f(t), f(z + D / 9))}],
                 'tracking': [{'kind': 'watch', 'out': 'w.h5', 'step': 6, 'xml': '<watch step="6" file="w.h5"/>'}],
                 'observers': [{'kind': 'point', 'source': 'lattice', 'out': 'p.sdds', 'xml': '<point file="p.sdds" source="lattice"><position x="%s" y="%s" z="%s"/><time t0="%s" dt="%s" n="%d"/></point>' % (f(P[0]), f(P[1]), f(z + D), f(t0), f(1.3 * T / nt), nt + 8)}]}
            for d in (A, B):
                with open(d + '/input.xml', 'w') as o: o.write(scen.xml(s))
            q = dict(p)
        else:
            spec = copy.deepcopy(sc['inputs'][n if sc['prog'] == 'teufel' else 'target.h5']); spec['field'] = False
            s = scen.make_tool(x['prog'], x['seed2'], ['tiny']); t = s['inputs']['target.h5']; s0 = s['inputs']['source.h5']; u = spec['z'], spec['t0']
            L = max(spec['pitch'] * max(spec['nx'], spec['ny']), scen.C * spec['dt'] * spec['nt']) * r.uniform(0.5, 1.5); sg = 1 if x['prog'] == 'propagate' else -1
            t.update(z=u[0] + sg * L, t0=u[1] + L / scen.C + spec['dt'] * r.uniform(-3, 3), dt=spec['dt'] * r.choice([1, 1, 0.7]), nt=spec['nt'] + 3, pitch=spec['pitch'], t0slope=0.0)
            s['inputs'] = {'target.h5': t}; scen.materialise(s, A); scen.materialise(s, B); shutil.copy(os.path.join(a.dir, n), A + '/source.h5'); scen.write_mesh(B + '/source.h5', spec)
            with h5py.File(B + '/source.h5', 'r+') as h:
                if data.shape != (h['ObservationTime'].shape[0], spec['nt'], 6): return [('chain:shape', '%s holds fields of shape %s' % (n, data.shape))]
                h.create_dataset('ElMagField', data=data)
            q = dict(p, ranks=1)
        o = []; F = 'chain.h5' if kind == 'screen' else 'source.h5'; g, w = readers.read(A + '/' + F), readers.read(B + '/' + F)
        for k in sorted(w):
            gv = np.asarray(g[k]) if k in g else None; wv = np.asarray(w[k])
            if gv is None or gv.shape != wv.shape or gv.size and k != 'ElMagField' and np.abs(gv - wv).max() > 1e-9 * np.abs(wv).max() + 1e-18:
                o.append(('chain:%s:geometry' % kind, '%s: %s is %s, requested was %s' % (n, k, None if gv is None else str(gv.tolist())[:200], str(wv.tolist())[:200]))); break
        if kind == 'screen' and x.get('script') and nt > 0: o += by_script(A + '/chain.h5', w)
        u = ctx.run(s, q, start=A); v = ctx.run(s, ref_plan(q), start=B)
        if fails(v): return o
        if fails(u): return o + [('chain:outcome', 'the run which reads %s of the first run: %s; %s' % (n, why(u), '; '.join(error_lines(u)[:2])))]
        for m, it in scen.outputs(s).items():
            if it['kind'] == 'watch': d = differ(u, v, m, it, 1e-9); o += [('chain:%s:watch' % kind, '%s: %s' % (n, d))] if d else []
            else:
                try:
                    if kind == 'screen' and nt > 1:
                        got = u.out(m); g = np.array([got['col.' + c] for c in FIELDCOLS]).T; e, edge = screen_model(B + '/chain.h5', np.array([P[0], P[1], D]), t0 - t + 1.3 * T / nt * np.arange(len(g)))
                        if g.shape == e.shape: o += close_to('chain:source', np.where(edge[:, None], 0, g), np.where(edge[:, None], 0, e), 1e-6, 'field of the source screen against the sum over its cells')
                    o += close_to('chain:%s' % kind, fields(u, m), fields(v, m), 1e-6, 'what the second run makes of %s, against the same fields with the requested geometry' % n)
                except Bad as e: o.append(('chain:unreadable', '%s: %s' % (m, e)))
        return o
    finally: shutil.rmtree(top, ignore_errors=True)

def gen_C23(i, r):
    k = i % 4; x = {'seed2': r.randrange(10**9), 'script': i % 8 < 4, 'prog': r.choice(['propagate', 'reflection'])}
    if k == 3: yield 'chain', scen.make_tool(r.choice(['propagate', 'reflection']), r.randrange(10**9), r.choice([['tiny'], ['tiny'], []])), tplan(r, ranks=1, preempt=0), x; return
    sc = scen.make(r.randrange(10**9), ['obs', 'nofel', 'noprobe', 'small', 'nosource'] + ['latobs'] * (r.random() < 0.6)); want = 'screen' if k < 2 else 'mesh'
    sc['observers'] = [o for o in sc['observers'] if o['kind'] == want][:1]; sc['tracking'] = []
    if sc['observers']: yield 'chain', scen.drop_unused(sc), rnd_plan(r, ranks=r.choice([1, 2, 3, 4])), x

BULK = ('watch', 'watch-sdds', 'point', 'screen', 'snapshot', 'mesh', 'sdds', 'particle', 'logs', 'source', 'fel')
def gen_C24(i, r):
    if i % 13 == 12: sc = scen.make_tool(r.choice(['propagate', 'reflection']), r.randrange(10**9), ['tiny']); p = rnd_plan(r, ranks=1)
    else: sc = scen.make_bulk(r.randrange(10**9), BULK[i % 13] if i % 13 < len(BULK) else r.choice(BULK)); p = rnd_plan(r, ranks=r.choice([1, 2, 3, 4]), threads=[r.choice([1, 1, 2])])
    p['redorder'] = 0; p['maxfd'] = 8
    yield 'files', sc, p, {}

# ------------------------------------------------------------------ C25
def standardised(sc, w):
    """per bunch: the coordinates relative to the requested distribution (n, 6), and for every column gauss / flat / fixed"""
    o = []; k = 0
    for b in sc['beam']:
        s = b['sample']; n = b['n']; d = np.array(s['dir']); d = d / np.linalg.norm(d); bg = math.sqrt(s['gamma'] ** 2 - 1)
        D = np.array(w[k:k + n, :6], float); k += n
        D[:, :3] -= np.array(s['pos']); D[:, 3:] -= d * bg
        for a, c, f in reversed(s['cor']): D[:, c] -= f * D[:, a]
        sc6 = np.array(s['S'], float); sc6[3:] *= bg
        o.append((D, sc6, ['fixed' if v == 0 else 'flat' if j == 2 and s['flat'] else 'gauss' for j, v in enumerate(sc6)], np.array(s['pos'] + list(d * bg))))
    return o

def chk_sample(ctx, sc, p, x):
    """C25: the particles drawn are independent samples of the requested distribution, in every run others.
    All limits are at 7 or more standard deviations, so chance does not reach them in the lifetime of this check."""
    s = with_watch(sc, [0]); o = []; cols = []; raw = []
    for seed in (p['seed'], x['seed2']):
        q = copy.deepcopy(p); q['seed'] = seed; a = ctx.run(s, q)
        if fails(a): return [('sample:outcome', why(a))]
        try: w = np.array(a.out('zz0.h5')['electrons'])
        except Bad as e: return [('sample:unreadable', str(e))]
        if len(w) != scen.nop(sc): return [('sample:number', '%d particles instead of %d' % (len(w), scen.nop(sc)))]
        k = 0
        for ib, (D, S, kind, ref) in enumerate(standardised(sc, w)):
            n = len(D)
            for j in range(6):
                nm = 'bunch %d coordinate %d' % (ib, j); u = D[:, j]
                if kind[j] == 'fixed':
                    lim = 1e-9 * (np.abs(w[k:k + n, j]).max() + abs(ref[j]) + sum(abs(f) * np.abs(D[:, c]).max() for c, d, f in sc['beam'][ib]['sample']['cor'] if d == j)) + 1e-30
                    if np.abs(u).max() > lim: o.append(('sample:spread', '%s: spread %.3g where none was requested' % (nm, np.abs(u).max())))
                    continue
                u = u / S[j]; t = np.sort(u)
                if kind[j] == 'gauss':
                    cdf = 0.5 * (1 + np.array([math.erf(v / math.sqrt(2)) for v in t])); sig = 1.0; vv = 2.0; hi = 7.5
                else: cdf = np.clip(0.5 * (1 + t), 0, 1); sig = math.sqrt(1 / 3.); vv = 0.8; hi = 1 + 1e-6
                if abs(u.mean()) * math.sqrt(n) > 7 * sig: o.append(('sample:mean', '%s: mean %.3g, expected 0 +- %.3g (in units of the requested spread, %d particles)' % (nm, u.mean(), sig / math.sqrt(n), n)))
                v = (u * u).mean() / sig ** 2
                if abs(v - 1) * math.sqrt(n / vv) > 8: o.append(('sample:rms', '%s: spread %.4g of the requested one (%d particles)' % (nm, math.sqrt(v), n)))
                if np.abs(u).max() > hi: o.append(('sample:range', '%s: value at %.3g times the requested spread' % (nm, np.abs(u).max())))
                e = np.arange(1, n + 1) / n; ks = max((e - cdf).max(), (cdf - e + 1.0 / n).max()) * math.sqrt(n)
                if ks > 3.8: o.append(('sample:shape', '%s: Kolmogorov distance %.3g' % (nm, ks)))
                if len(np.unique(u)) < n - 2: o.append(('sample:repeated', '%s: only %d different values among %d' % (nm, len(np.unique(u)), n)))
                c = u / sig - (u / sig).mean()
                for lag in (1, 2, 6):
                    z = (c[lag:] * c[:-lag]).mean() * math.sqrt(n - lag)
                    if abs(z) > 8: o.append(('sample:serial', '%s: particles %d apart are correlated (%.2f)' % (nm, lag, z / math.sqrt(n - lag))))
                cols.append(('run %d ' % len(raw) + nm, c, (len(raw), ib, j)))
            k += n
        raw.append(w)
    for a in range(len(cols)):
        for b in range(a):
            n = min(len(cols[a][1]), len(cols[b][1])); z = (cols[a][1][:n] * cols[b][1][:n]).mean() * math.sqrt(n)
            if abs(z) > 9: o.append(('sample:independent', '%s and %s are correlated (%.2f)' % (cols[a][0], cols[b][0], z / math.sqrt(n))))
    return o[:6]

def gen_C25(i, r):
    yield 'sample', scen.make_sample(r.randrange(10**9)), rnd_plan(r, ranks=r.choice([1, 1, 2, 3, 4, 5, 7]), threads=[1]), {'seed2': r.randrange(1, 10**9)}

# ------------------------------------------------------------------ C30 C35
CC = 299792458.0; EM = 1.6021766208e-19 / 9.10938356e-31
def chk_place(ctx, sc, p, x):
    """C35: particles of SDDS files enter the run as the file and the requested direction say, and fly freely"""
    n = sc['nots']; s = with_watch(with_watch(sc, sorted({0, n})), [0], 'watch-sdds', 'zs'); a = ctx.run(s, p)
    if fails(a): return [('place:outcome', why(a))]
    try: w0, w1, sd = np.array(a.out('zz0.h5')['electrons']), np.array(a.out('zz%d.h5' % n)['electrons']), a.out('zs0.sdds')
    except Bad as e: return [('place:unreadable', str(e))]
    o = conserve('place', sc, a, w0, sd); k = 0
    if o: return o
    if np.abs(np.array(sd['col.t'])).max() > 1e-25: o.append(('place:start', 'particles start at %r instead of 0' % float(np.abs(np.array(sd['col.t'])).max())))
    if not (np.all(np.isfinite(w0)) and np.all(np.isfinite(w1))): return [('place:number', 'coordinates which are no numbers')]
    for ib, b in enumerate(sc['beam']):
        R = np.array(sc['inputs'][b['input']]['rows'], float); m = len(R); W = w0[k:k + m]; V = w1[k:k + m]; k += m; nm = 'bunch %d' % ib
        d = np.array(b['dir'] or [0.0, 0.0, 1.0]); es = d / np.linalg.norm(d); bg = R[:, 5]; be = bg / np.sqrt(1 + bg * bg); dl = (be * CC * (R[:, 4].mean() - R[:, 4]))[:, None]
        ax = None
        if abs(es[1]) < 1e-12:       # the x axis of the file stays in the x-z plane
            ax = np.array([es[2], 0.0, -es[0]]); ax *= -1 if ax[0] < 0 else 1
        sz = np.abs(R[:, [0, 2]]).max() + np.abs(dl).max()
        def frame(ex):
            ey = np.cross(ex, es); D = R[:, 1:2] * ex + R[:, 3:4] * ey + es; D /= np.linalg.norm(D, axis=1)[:, None]
            return np.hstack([R[:, 0:1] * ex + R[:, 2:3] * ey + D * dl, D * bg[:, None]])
        if ax is None or abs(es[0]) > 0.7:     # direction of x around the axis is a choice: take it from the data
            D = W[:, 3:] / np.linalg.norm(W[:, 3:], axis=1)[:, None]; T = np.linalg.lstsq(R[:, [0, 2]], W[:, :3] - D * dl, rcond=None)[0]; ex = T[0] - es * T[0].dot(es)
            ln = np.linalg.norm(ex); ex = ex / (ln or 1)
            if ax is not None and abs(abs(ex.dot(ax)) - 1) > 1e-6: o.append(('place:axis', '%s: x axis of the file is mapped to %s, which is not in the x-z plane' % (nm, ex)))
        else: ex = ax
        E = frame(ex)
        for c, dd, fac in b['cor']: E[:, dd] += fac * (E[:, c] - E[:, c].mean())
        gr = np.array([sz] * 3 + [bg.max()] * 3)
        for c, dd, fac in b['cor']: gr[dd] += abs(fac) * gr[c]
        bad = ~(np.abs(W[:, :6] - E) <= 1e-9 * gr + 1e-16)
        if bad.any(): i, j = np.argwhere(bad)[0]; o.append(('place:' + ('position' if j < 3 else 'momentum'), '%s particle %d coordinate %d is %r instead of %r (direction %s)' % (nm, i, j, float(W[i, j]), float(E[i, j]), es)))
        P = W[:, 3:6]; F = W[:, :3] + P / np.sqrt(1 + (P * P).sum(axis=1))[:, None] * CC * n * sc['dt']
        if not (np.abs(V[:, 3:6] - P).max() <= 1e-12 * np.abs(P).max() and np.abs(V[:, :3] - F).max() <= 1e-11 * (np.abs(F).max() + CC * n * sc['dt'])): o.append(('place:flight', '%s does not fly freely' % nm))
    return o[:4]

def gen_C35(i, r): yield 'place', scen.make_placed(r.randrange(10**9)), rnd_plan(r, threads=[1]), {}

def exact(x, u, K, F, T, m=500):
    """solution of the relativistic equation of motion in homogeneous fields (fourth order)"""
    E, B = np.array(F[:3]), np.array(F[3:]); K = K[:, None]
    def g(u): return np.sqrt(1 + (u * u).sum(axis=1))[:, None]
    def du(u): return K * (E / CC + np.cross(u / g(u), B))
    h = T / m; x = x.copy(); u = u.copy()
    for _ in range(m):
        k1 = du(u); u2 = u + h / 2 * k1; k2 = du(u2); u3 = u + h / 2 * k2; k3 = du(u3); u4 = u + h * k3
        x += h / 6 * CC * (u / g(u) + 2 * u2 / g(u2) + 2 * u3 / g(u3) + u4 / g(u4)); u += h / 6 * (k1 + 2 * k2 + 2 * k3 + du(u4))
    return x, u

def chk_motion(ctx, sc, p, x):
    """C30: the error of the trajectories vanishes as the square of the time step; energy is conserved without electric field"""
    b = sc['beam']; X0 = np.array([q['x0'] for q in b]); D = np.array([q['d'] for q in b]); gm = np.array([q['gamma'] for q in b]); D = D / np.linalg.norm(D, axis=1)[:, None]; U0 = D * np.sqrt(gm * gm - 1)[:, None]
    K = np.array([q['cmr'] for q in b]) * EM; T = sc['nots'] * sc['dt']; o = []; wv = sc.get('wave'); Xe, Ue = (None, None) if wv else exact(X0, U0, K, sc['F'], T); last = None
    Om = np.abs(K) * (np.linalg.norm(sc['F'][:3]) / CC + np.linalg.norm(sc['F'][3:]))
    if wv: Om = Om + np.abs(K) * 2 * wv[1] / CC + 4 * math.pi * CC / wv[0]      # rate of change of the field met by a particle
    for m in (1, 2, 4) if wv else (1, 4):
        n = sc['nots'] * m; s = with_watch(with_watch(dict(sc, nots=n, dt=sc['dt'] / m), [0, n]), [n], 'watch-sdds', 'zs'); a = ctx.run(s, p if m == x['at'] else ref_plan(p))
        if fails(a): return [('motion:outcome', why(a))]
        try: w0, w, sd = np.array(a.out('zz0.h5')['electrons']), np.array(a.out('zz%d.h5' % n)['electrons']), a.out('zs%d.sdds' % n)
        except Bad as e: return [('motion:unreadable', str(e))]
        if len(w) != len(b): return [('motion:number', '%d particles instead of %d' % (len(w), len(b)))]
        if not (np.abs(w0[:, :3] - X0).max() <= 1e-12 * np.abs(X0).max() and np.abs(w0[:, 3:6] - U0).max() <= 1e-12 * (np.abs(U0).max() + 1e-3)): o.append(('motion:start', 'initial coordinates are %s instead of %s' % (w0[0], np.hstack([X0, U0])[0])))
        t = np.array([q['t0'] for q in b]) + n * s['dt']; dt = np.abs(np.array(sd['col.t']) - t)
        if not dt.max() <= 1e-9 * (np.abs(t).max() + T): o.append(('motion:time', 'step %d is at %r instead of %r' % (n, float(np.array(sd['col.t'])[dt.argmax()]), float(t[dt.argmax()]))))
        if wv:
            pr, last = last, w
            if pr is None: continue
            Xe, Ue = pr[:, :3], pr[:, 3:6]
        ex, eu = np.linalg.norm(w[:, :3] - Xe, axis=1) / (CC * T), np.linalg.norm(w[:, 3:6] - Ue, axis=1) / (np.linalg.norm(U0, axis=1) + np.linalg.norm(Ue, axis=1) + 0.1)
        h = Om * s['dt']; lim = h * h * (1 + Om * T)
        for nm, e in (('position', ex), ('momentum', eu)):
            q = ~(e <= MOTION[nm] * lim + 1e-9)
            if q.any(): i = int((e / lim).argmax()); o.append(('motion:' + nm, 'particle %d (gamma %.3g, %.3g of its rotation per step, %d steps): error of the %s is %.3g, i.e. %.3g times the square of the step times the length' % (i, gm[i], h[i], n, nm, e[i], e[i] / lim[i])))
        if not any(sc['F'][:3]) and not wv:
            d = np.abs(np.linalg.norm(w[:, 3:6], axis=1) / (np.linalg.norm(U0, axis=1) + 1e-300) - 1); d[gm == 1] = np.linalg.norm(w[:, 3:6], axis=1)[gm == 1]
            if not (d <= 1e-11).all(): o.append(('motion:energy', 'energy is not conserved in a magnetic field: momentum changes by %.3g' % d.max()))
    return o[:4]
MOTION = {'position': 0.06, 'momentum': 0.06}

def gen_C30(i, r): yield 'motion', scen.make_motion(r.randrange(10**9)), rnd_plan(r, threads=[1]), {'at': r.choice([1, 4])}

# ------------------------------------------------------------------ C17
MEMV = ('bad-free', 'double-free', 'heap-overflow', 'null-access', 'use-after-free', 'heap-out-of-bounds')
def chk_memory(ctx, sc, p, x):
    o = []; q = copy.deepcopy(p); q['fill'] = 0; runs = []
    for fl in (x.get('fills') or [p['fill']]):
        q = copy.deepcopy(p); q['fill'] = fl; runs.append(ctx.run(sc, q))
    for a in runs:
        for k, t in a.r.viol:
            if k in MEMV: o.append(('memory:%s:%s' % (k, site(t)), t))
            elif k == 'collective-mismatch' and 'overrun' in t: o.append(('memory:overrun', t))
        if a.r.outcome == 'crash': o.append(('memory:crash', why(a)))
    a = runs[0]
    for b in runs[1:]:
        if fails(a) != fails(b): o.append(('memory:fill-outcome', 'fresh memory of another content changes the outcome: %s / %s' % (why(a), why(b)))); continue
        if fails(a): continue
        c = cmp_runs('memory:fill', b, a, sc, tol=None); o += [(k, 'depends on the content of fresh memory: ' + t) for k, t in c]
    return o

def site(t):
    m = re.search(r' (?:in|at) ([^\s+(]+)', t); return m.group(1) if m else ''

def gen_C17(i, r, ctx=None):
    k = i % 6
    if k in (0, 1):
        sc = scen.make(r.randrange(10**9), r.choice([[], ['obs'], ['source'], ['fel'], ['sdds', 'obs'], ['watch', 'logs', 'probe']]))
        if r.random() < 0.1: sc['nots'] = r.choice([0, 1, 2])
        yield 'memory', sc, rnd_plan(r), {'fills': [0, 1, 2]}
        yield 'memory', sc, rnd_plan(r), {}
    elif k == 2:
        sc = scen.make_tool(r.choice(['propagate', 'reflection']), r.randrange(10**9), r.choice([[], ['cells'], ['fan'], ['tiny']]))
        yield 'memory', sc, tplan(r, ranks=1), {'fills': [0, 1, 2]}
    elif k == 3:   # error paths: outputs
        sc = scen_out(r); p = rnd_plan(r, ranks=r.choice([1, 2, 3]), threads=[1]); base = ctx.cached(sc, base_plan(p))
        sites = fault_sites(base, sc, scen.outputs(sc), OUT_OPS)
        for _ in range(3):
            if sites: q = copy.deepcopy(p); q['io'] = [out_fault(r, pick_site(r, sites))]; yield 'memory', sc, q, {}
    elif k == 4:   # error paths: inputs
        for c, s, p, x in gen_C16(i, r, ctx): yield 'memory', s, p, {}
    else:          # failing allocations
        for c, s, p, x in gen_C15(i, r, ctx):
            if p['alloc']: yield 'memory', s, p, {}

CHECKS = {k[4:]: v for k, v in globals().items() if k.startswith('chk_')}
GENS = {k[4:]: v for k, v in globals().items() if k.startswith('gen_C')}
def generate(prop, i, r, ctx):
    g = GENS[prop]
    import inspect
    return g(i, r, ctx) if 'ctx' in inspect.signature(g).parameters else g(i, r)
