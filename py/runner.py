"""Runs simulated jobs: a pool of teusim servers, plans in, results out."""
import os, sys, subprocess, threading, queue, shutil, time, json, tempfile, atexit
import scen, readers

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

DEF = dict(ranks=1, threads=[1], seed=1, sched=1, psw=0.0, preempt=0.0, straggler=-1, fill=0, clockmode=0, procmode=0,
           syncbcast=0, redorder=0, killat=-1, rankkill=None, abortdelay=8, diskfull=-1, maxfd=-1, io=[], alloc=[], races=0, racep=0.0,
           racepc=[], trace=0, entropy=None, replay=0, sd=[], pd=[], budget=400000000, memcheck=1)

def plan(**kw):
    p = dict(DEF); p.update(kw); return p

def plan_text(p, sc, rundir, result):
    o = ['dir ' + rundir, 'result ' + result, 'prog ' + sc['prog']]
    o += ['arg ' + a for a in scen.args(sc)]
    for k in ('ranks', 'seed', 'sched', 'psw', 'preempt', 'straggler', 'fill', 'clockmode', 'procmode', 'syncbcast', 'redorder', 'killat',
              'abortdelay', 'diskfull', 'maxfd', 'races', 'racep', 'trace', 'replay', 'budget', 'memcheck'):
        if p.get(k, DEF[k]) != DEF[k] or k in ('ranks', 'seed', 'sched'): o.append('%s %s' % (k, p.get(k, DEF[k])))
    o.append('threads ' + ' '.join(map(str, p['threads'])))
    if p.get('rankkill'): o.append('rankkill %d %d' % tuple(p['rankkill']))
    if p.get('entropy'): o.append('entropy ' + ' '.join(map(str, p['entropy'])))
    if p.get('racepc'): o.append('racepc ' + ' '.join(p['racepc']))
    for f in p.get('io') or []: o.append('io %s %s %d %d %d %d %d' % (f['op'], f['file'], f['nth'], f['err'], 1 if f.get('sticky') else 0, f.get('shortto', -1), f.get('rank', -1)))
    for r, n in p.get('alloc') or []: o.append('alloc %d %d' % (r, n))
    for a, b in p.get('sd') or []: o.append('sd %d %d' % (a, b))
    for a, b in p.get('pd') or []: o.append('pd %d %d' % (a, b))
    return '\n'.join(o) + '\n'

class Result:
    def __init__(self, path, code):
        self.ok = False; self.outcome = 'harness-error'; self.text = 'exit %s' % code; self.ranks = []; self.n = {}; self.viol = []
        self.sd = []; self.pd = []; self.io = {}; self.alloc = {}; self.iofired = []; self.allocfired = []; self.console = ''; self.log = ''
        self.hash = ''; self.schedsig = ''; self.racepc = []; self.race = []
        try:
            with open(path, 'rb') as fh: b = fh.read()
        except OSError: return
        pos = 0; done = False
        while pos < len(b):
            e = b.find(b'\n', pos)
            if e < 0: break
            l = b[pos:e].decode('latin1'); pos = e + 1
            k, _, v = l.partition(' ')
            if k == 'outcome': self.outcome = v
            elif k == 'text': self.text = v
            elif k == 'rank':
                q = v.split(' ', 5); self.ranks.append(dict(status=q[1], code=int(q[2]), clock=float(q[3]), events=int(q[4]), text=q[5] if len(q) > 5 else ''))
            elif k == 'hash': self.hash = v
            elif k == 'schedsig': self.schedsig = v
            elif k == 'n': a, c = v.rsplit(' ', 1); self.n[a] = int(c)
            elif k == 'viol': a, _, c = v.partition(' '); self.viol.append((a, c))
            elif k == 'sd': self.sd.append([int(x) for x in v.split()])
            elif k == 'pd': self.pd.append([int(x) for x in v.split()])
            elif k == 'racepc': self.racepc.append(v)
            elif k == 'race': self.race.append(v)
            elif k == 'io':
                r, op, f, n = v.split(' '); self.io[(int(r), op, f)] = int(n)
            elif k == 'iofired': self.iofired.append(int(v.split()[1]))
            elif k == 'allocfired': self.allocfired.append(int(v.split()[1]))
            elif k == 'alloc': r, n = v.split(); self.alloc[int(r)] = int(n)
            elif k == 'console': n = int(v); self.console = b[pos:pos + n].decode('latin1'); pos += n + 1
            elif k == 'log': n = int(v); self.log = b[pos:pos + n].decode('latin1'); pos += n + 1
            elif k == 'end': done = True
        self.ok = done and self.outcome != 'harness-error'
        if not done: self.outcome = 'harness-error'
    def fired(self): return sum(self.iofired) + sum(self.allocfired) + sum(v for k, v in self.n.items() if k.startswith('fault.'))
    def lines(self, rank=None):
        """console lines [(rank, event, text)]"""
        if not hasattr(self, '_lines'):
            o = []
            for l in self.console.split('\n'):
                h, s, t = l.partition('|')
                if not s: continue
                r, _, e = h.partition('@')
                try: o.append((int(r), int(e), t))
                except ValueError: o.append((-1, -1, l))
            self._lines = o
        return self._lines if rank is None else [x for x in self._lines if x[0] == rank]
    def said(self, s): return sum(1 for _, _, t in self.lines() if s in t)

class Server:
    def __init__(self, libdir):
        self.libdir = libdir; self.start()
    def start(self):
        env = dict(os.environ, HDF5_USE_FILE_LOCKING='TRUE'); env.pop('OMP_NUM_THREADS', None); env.pop('TEUSIM_REEXEC', None); env['LC_ALL'] = 'C'
        self.p = subprocess.Popen([self.libdir + '/teusim', self.libdir, '--serve'], stdin=subprocess.PIPE, stdout=subprocess.PIPE,
                                  stderr=None if os.environ.get('TEUSIM_DEBUG') else subprocess.DEVNULL, env=env, cwd='/')
    def run(self, planpath):
        try:
            self.p.stdin.write((planpath + '\n').encode()); self.p.stdin.flush()
            l = self.p.stdout.readline().decode().split()
            if len(l) == 2: return int(l[1])
        except (OSError, ValueError): pass
        self.close(); self.start(); return -1
    def close(self):
        try: self.p.stdin.close()
        except OSError: pass
        try: self.p.wait(5)
        except subprocess.TimeoutExpired: self.p.kill(); self.p.wait()

class Run:
    """one executed simulated job; outputs are read on demand"""
    def __init__(self, sc, p, res, d): self.sc = sc; self.p = p; self.r = res; self.dir = d; self._o = {}
    def out(self, name):
        if name not in self._o:
            try: self._o[name] = readers.read(os.path.join(self.dir, name))
            except readers.Bad as e: self._o[name] = e
        v = self._o[name]
        if isinstance(v, Exception): raise v
        return v
    def good(self, name):
        try: self.out(name); return True
        except readers.Bad: return False
    def exists(self, name): return os.path.exists(os.path.join(self.dir, name))
    def free(self): shutil.rmtree(self.dir, ignore_errors=True)

class Stats:
    def __init__(self):
        self.lock = threading.Lock(); self.runs = 0; self.sig = set(); self.hashes = set(); self.faults = {}; self.simtime = 0.0; self.events = 0; self.switch = 0
        self.preempt = 0; self.collectives = 0; self.ranks = {}; self.threads = {}; self.outcomes = {}; self.seeds = set(); self.notes = {}; self.sync = 0
    def add(self, sc, p, r):
        with self.lock:
            self.runs += 1; self.sig.add(r.schedsig); self.hashes.add(r.hash)
            for k, v in r.n.items():
                if k.startswith('fault.'): self.faults[k[6:]] = self.faults.get(k[6:], 0) + v
                if k.startswith('note.'): self.notes[k[5:]] = self.notes.get(k[5:], 0) + v
            s = sum(r.allocfired)
            if s and 'fault.alloc' not in r.n: self.faults['alloc'] = self.faults.get('alloc', 0) + s
            if p.get('straggler', -1) >= 0: self.faults['straggler-node'] = self.faults.get('straggler-node', 0) + 1
            self.simtime += max([x['clock'] - 1.7e9 for x in r.ranks] or [0])
            self.events += r.n.get('events', 0); self.switch += r.n.get('switch', 0); self.preempt += r.n.get('preempt', 0); self.sync += r.n.get('sync', 0)
            self.collectives += r.n.get('mpi.collectives', 0)
            self.ranks[p['ranks']] = self.ranks.get(p['ranks'], 0) + 1
            t = max(p['threads']); self.threads[t] = self.threads.get(t, 0) + 1
            self.outcomes[r.outcome] = self.outcomes.get(r.outcome, 0) + 1

class Lab:
    def __init__(self, libdir, workers=None, scratch=None):
        self.libdir = libdir
        self.n = workers or min(16, os.cpu_count() or 4)
        base = scratch or os.path.join(HERE, 'work'); os.makedirs(base, exist_ok=True)
        self.base = tempfile.mkdtemp(prefix='run', dir=base)
        self.stats = Stats(); self.k = 0; self.lock = threading.Lock()
        self.local = threading.local(); self.servers = []
        atexit.register(self.close)
    def close(self):
        for s in self.servers: s.close()
        self.servers = []
        shutil.rmtree(self.base, ignore_errors=True)
    def server(self):
        if not hasattr(self.local, 's'):
            self.local.s = Server(self.libdir)
            with self.lock: self.servers.append(self.local.s)
        return self.local.s
    def run(self, sc, p, fresh=False, stats=True, start=None):
        """execute one simulated job, in a fresh directory or on what another job left behind"""
        with self.lock: self.k += 1; k = self.k
        d = os.path.join(self.base, 'r%d' % k); rd = os.path.join(d, 'run'); os.makedirs(d)
        if start: shutil.copytree(start, rd)
        else: os.makedirs(rd); scen.materialise(sc, rd)
        pf, rf = os.path.join(d, 'plan'), os.path.join(d, 'res')
        with open(pf, 'w') as o: o.write(plan_text(p, sc, rd, rf))
        if fresh:
            env = dict(os.environ, HDF5_USE_FILE_LOCKING='TRUE', LC_ALL='C'); env.pop('OMP_NUM_THREADS', None); env.pop('TEUSIM_REEXEC', None)
            code = subprocess.run([self.libdir + '/teusim', self.libdir, pf], stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, env=env).returncode
        else: code = self.server().run(pf)
        r = Result(rf, code)
        if stats: self.stats.add(sc, p, r)
        run = Run(sc, p, r, rd)
        run.top = d
        run.free = lambda: shutil.rmtree(d, ignore_errors=True)
        return run
    def map(self, fn, items, deadline=None, stop=None):
        """fn(item) in parallel threads; results in the order of the items; None for items not started in time"""
        items = list(items); res = [None] * len(items); q = queue.Queue()
        for i in range(len(items)): q.put(i)
        err = []
        def work():
            while True:
                try: i = q.get_nowait()
                except queue.Empty: return
                if deadline and time.time() > deadline: return
                if stop and stop(): return
                try: res[i] = fn(items[i])
                except Exception as e:
                    import traceback; err.append(traceback.format_exc()); return
        ts = [threading.Thread(target=work) for _ in range(self.n)]
        for t in ts: t.start()
        for t in ts: t.join()
        if err: raise RuntimeError(err[0])
        return res
