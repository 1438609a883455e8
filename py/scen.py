"""Scenarios: complete TEUFEL inputs generated from a seed, kept as JSON so that they can be minimised and replayed."""
import random, json, os, math, re
import numpy as np, h5py
C = 299792458.0

def f(x): return repr(float(x))

# ---------------------------------------------------------------- input files
def write_sdds_bunch(path, spec):
    rows = spec['rows']
    if spec.get('binary'):
        import struct
        with open(path, 'wb') as o:
            o.write(b'SDDS1\n!# little-endian\n&parameter name=Particles, type=long, &end\n&parameter name=Charge, units=C, type=double, &end\n')
            for c, u in (('x', 'm'), ('xp', ''), ('y', 'm'), ('yp', ''), ('t', 's'), ('p', '')):
                o.write(('&column name=%s, %stype=double, &end\n' % (c, ('units=%s, ' % u) if u else '')).encode())
            o.write(b'&data mode=binary, &end\n' + struct.pack('<iid', len(rows), spec.get('claimed', len(rows)), spec['charge']))
            for r in rows: o.write(struct.pack('<6d', *r))
        return
    with open(path, 'w') as o:
        o.write('SDDS1\n&parameter name=Particles, type=long, &end\n&parameter name=Charge, units=C, type=double, &end\n')
        for c, u in (('x', 'm'), ('xp', ''), ('y', 'm'), ('yp', ''), ('t', 's'), ('p', '')):
            o.write('&column name=%s, %stype=double, &end\n' % (c, ('units=%s, ' % u) if u else ''))
        o.write('&data mode=ascii, &end\n! page number 1\n%d\n%s\n%d\n' % (spec.get('claimed', len(rows)), f(spec['charge']), len(rows)))
        for r in rows: o.write(' '.join(f(v) for v in r) + '\n')

def write_screen(path, spec):
    r = np.random.RandomState(spec['seed'])
    nx, ny, nt = spec['nx'], spec['ny'], spec['nt']; dt = spec['dt']; d = spec['pitch']
    with h5py.File(path, 'w') as h:
        scr = np.array([[0, 0, 0], [0, 0, 1], [d, 0, 0], [0, d, 0]], float)
        ds = h.create_dataset('Screen', data=scr)
        ds.attrs.create('Nx', nx, dtype='i4'); ds.attrs.create('Ny', ny, dtype='i4'); ds.attrs.create('NOTS', nt, dtype='i4')
        ds.attrs['t0'] = 0.0; ds.attrs['dt'] = dt; ds.attrs['dtx'] = spec.get('dtx', 0.0); ds.attrs['dty'] = spec.get('dty', 0.0)
        t = np.arange(nt) / float(nt)
        a = np.zeros((nx, ny, nt, 6))
        for i in range(nx):
            for j in range(ny):
                e = np.sin(2 * math.pi * (2 * t + 0.1 * i + 0.07 * j)) * 1e6 * (1 + 0.2 * r.rand())
                a[i, j, :, 0] = e; a[i, j, :, 4] = e / C
        fd = h.create_dataset('ElMagField', data=a)
        fd.attrs['t0'] = 0.0; fd.attrs['dt'] = dt; fd.attrs.create('NOTS', nt, dtype='i4')
        x = np.zeros((nx, ny, 3))
        for i in range(nx):
            for j in range(ny): x[i, j] = [(i - 0.5 * (nx - 1)) * d, (j - 0.5 * (ny - 1)) * d, 0]
        pd = h.create_dataset('ObservationPosition', data=x)
        pd.attrs.create('Nx', nx, dtype='i4'); pd.attrs.create('Ny', ny, dtype='i4')

def write_mesh(path, spec):
    """a triangulated rectangle in a plane perpendicular to z (or tilted)"""
    r = np.random.RandomState(spec['seed'])
    nx, ny, nt = spec['nx'], spec['ny'], spec['nt']; d = spec['pitch']; z = spec['z']
    pts = []
    for j in range(ny + 1):
        for i in range(nx + 1):
            x = (i - 0.5 * nx) * d; y = (j - 0.5 * ny) * d
            pts.append([x, y + spec.get('y0', 0.0), z + spec.get('tilt', 0.0) * x + spec.get('rough', 0.0) * d * r.randn()])
    tri = []
    for j in range(ny):
        for i in range(nx):
            a = j * (nx + 1) + i; b = a + 1; c = a + nx + 1; e = c + 1
            if spec.get('flip'): tri += [[a, b, c], [b, e, c]]
            else: tri += [[a, c, b], [b, c, e]]
    if spec.get('fan'):   # a fan of triangles around one point
        m = spec['fan']; pts = [[0.0, 0.0, z]]; tri = []
        for k in range(m):
            a = 2 * math.pi * k / m; pts.append([d * math.cos(a), d * math.sin(a), z]); tri.append([0, 1 + (k + 1) % m, 1 + k])
    if 'only' in spec: tri = [tri[spec['only']]]
    pts = np.array(pts); tri = np.array(tri, dtype='i4'); n = len(tri)
    o = slice(None, None, -1) if spec.get('reverse') else slice(None)
    tri = tri[o]
    cen = pts[tri].mean(axis=1)
    with h5py.File(path, 'w') as h:
        ds = h.create_dataset('MeshCornerPoints', data=pts); ds.attrs.create('Ncp', len(pts), dtype='i4')
        ds = h.create_dataset('ObservationPosition', data=cen); ds.attrs.create('Np', n, dtype='i4')
        ds = h.create_dataset('MeshTriangles', data=tri); ds.attrs.create('Ntri', n, dtype='i4')
        t0 = np.full(n, spec['t0']) + spec.get('t0slope', 0.0) * (np.arange(n) + spec.get('only', 0))
        ds = h.create_dataset('ObservationTime', data=t0[o]); ds.attrs.create('Nt', nt, dtype='i4'); ds.attrs['dt'] = spec['dt']
        if spec.get('field'):
            t = np.arange(nt) / float(nt)
            a = np.zeros((n, nt, 6))
            for k in range(n):
                e = 1e6 * np.exp(-((t - 0.5) / 0.15) ** 2) * np.sin(2 * math.pi * 5 * t + 0.3 * k) * (1 + 0.3 * r.rand())
                e *= spec.get('scale', 1.0); s = spec.get('sign', 1.0)
                a[k, :, 0] = e; a[k, :, 4] = s * e / C; a[k, :, 1] = 0.3 * e[::-1]; a[k, :, 3] = -s * 0.3 * e[::-1] / C
            h.create_dataset('ElMagField', data=a[o])

WRITERS = {'sdds': write_sdds_bunch, 'screen': write_screen, 'mesh': write_mesh}

def materialise(sc, d):
    os.makedirs(d, exist_ok=True)
    for name, spec in sc.get('inputs', {}).items():
        if spec.get('missing'): continue
        WRITERS[spec['type']](os.path.join(d, name), spec)
        if 'spoil' in spec:      # the content of the file does not fit together
            with h5py.File(os.path.join(d, name), 'r+') as h:
                for op, ds, at, k in spec['spoil']:
                    if ds not in h: continue
                    if op == 'drop' and at is None: del h[ds]
                    elif op == 'drop' and at in h[ds].attrs: del h[ds].attrs[at]
                    elif op == 'attr' and at in h[ds].attrs: h[ds].attrs.modify(at, np.int32(max(0, int(h[ds].attrs[at]) + k)))
        if 'truncate' in spec:
            p = os.path.join(d, name); n = os.path.getsize(p)
            os.truncate(p, max(0, int(n * spec['truncate'])))
            if spec['type'] == 'sdds' and not spec.get('binary'):   # a number that lost its last digits cannot be recognised: drop it
                with open(p, 'r+') as o:
                    x = o.read(); k = max(x.rfind(' '), x.rfind('\n')); o.seek(0); o.truncate(); o.write(x[:k + 1])
    if sc['prog'] == 'teufel':
        x = xml(sc)
        if 'expr' in sc: x = expressed(x, sc['expr'])[0]
        if 'xmlmut' in sc: x = mutated(x, *sc['xmlmut'])
        if 'xmltruncate' in sc: x = x[:int(len(x) * sc['xmltruncate'])]
        with open(os.path.join(d, 'input.xml'), 'w') as o: o.write(x)

def nodes_of(x):
    '''(path, element, parent) of everything in a description'''
    import xml.etree.ElementTree as E
    t = E.fromstring(x); o = []
    def walk(e, path, up):
        q = e.tag if up is None else path + '/' + e.tag if up.get('type') is None else path + ':' + up.get('type') + '/' + e.tag
        o.append((q, e, up))
        for c in e: walk(c, q, e)
    walk(t, '', None); return t, o

def has(x, op, path, attr, k, form=None):
    '''is there what is to be spoiled'''
    c = [e for q, e, up in nodes_of(x)[1] if q == path]
    return bool(c) and (attr is None or attr in c[k % len(c)].attrib)

def mutated(x, op, path, attr, k, form=None):
    '''a description with something missing or unknown'''
    import xml.etree.ElementTree as E
    t, o = nodes_of(x); c = [(e, up) for q, e, up in o if q == path]
    if not c: return x
    e, up = c[k % len(c)]
    if op == 'drop': up.remove(e)
    elif op == 'rename': e.tag = e.tag + 'x'
    elif op == 'noattr': e.attrib.pop(attr, None)
    elif op == 'bad':
        e.set(attr, form.replace('%s', e.get(attr, '1')))
        if form == 'later': E.SubElement(t.find('observer'), 'calc', {'var': 'later', 'eq': '3'})
    elif op == 'word': e.attrib[attr] = e.attrib.get(attr, '') + 'nosuchname'
    return E.tostring(t, encoding='unicode')

CONST = {'_c': 299792458.0, '_e': 1.6021766208e-19, '_mec2': 0.5109989461e6, '_eps0': 8.854187817e-12, '_pi': math.pi}
NUM = re.compile(r'[-+]?[0-9]+(\.[0-9]*)?([eE][-+]?[0-9]+)?$')
TEXT = ('file', 'name', 'type', 'source', 'method', 'print', 'var', 'eq', 'description', 'author')
def numbers(e): return [a for a in sorted(e.attrib) if a not in TEXT and NUM.match(e.attrib[a])]

def random_expression(r, var, depth=3):
    '''(text, value, largest intermediate value) of a random expression'''
    if depth == 0 or r.random() < 0.25:
        k = r.random()
        if k < 0.3 and var: n = r.choice(sorted(var)); return n, var[n], abs(var[n])
        if k < 0.55: n = r.choice(sorted(CONST)); return n, CONST[n], abs(CONST[n])
        v = r.choice([r.randint(0, 12), round(r.uniform(0, 100), 3), float('%.4e' % 10 ** r.uniform(-9, 9))]); return repr(v), float(v), abs(v)
    k = r.choice('++--**//^fffn')
    a, x, m = random_expression(r, var, depth - 1)
    if k == 'n': return '(-%s)' % (a if re.match(r'\w+$', a) else '(%s)' % a), -x, m
    if k == 'f':
        n = r.choice(['sqrt', 'sin', 'cos', 'exp', 'ln', 'abs', 'min', 'max'])
        if n in ('min', 'max'): b, y, q = random_expression(r, var, depth - 1); return '%s(%s,%s)' % (n, a, b), (min if n == 'min' else max)(x, y), max(m, q)
        return '%s(%s)' % (n, a), {'sqrt': math.sqrt, 'sin': math.sin, 'cos': math.cos, 'exp': math.exp, 'ln': math.log, 'abs': abs}[n](x), m
    if k == '^': n = r.choice([2, 3]); return '(%s)^%d' % (a, n), x ** n, m
    b, y, q = random_expression(r, var, depth - 1)
    if k in '*/':   # a sum is put in brackets as an operand of a product, a product is not as an operand of a sum
        a = '(%s)' % a if re.search('[-+]', a) else a; b = '(%s)' % b if re.search('[-+*/]', b) else b
    elif k == '-' and re.search('[-+]', b): b = '(%s)' % b
    v = {'+': lambda: x + y, '-': lambda: x - y, '*': lambda: x * y, '/': lambda: x / y}[k]()
    return '%s%s%s' % (a, k, b), v, max(m, q, abs(v))

def printable(r, var):
    while True:
        try: t, v, m = random_expression(r, var)
        except (ZeroDivisionError, ValueError, OverflowError): continue
        if v == v and (v == 0 and m == 0 or abs(v) > 1e-6 * m and 1e-60 < abs(v) < 1e60): return t, v

def expressed(x, seed):
    '''the same description with expressions and variables in the place of numbers, and what it has to print'''
    import xml.etree.ElementTree as E
    r = random.Random('expr%s' % seed); t = E.fromstring(x); prints = []; seen = {}; k = [0]
    def calc(var=None, eq=None, prt=None):
        e = E.Element('calc')
        if prt: e.set('print', prt)
        if var: e.set('var', var)
        e.set('eq', eq); return e
    def prnt(var=None, scope=None):
        s, v = printable(r, scope if scope is not None else seen); k[0] += 1; n = 'P%d' % k[0]; prints.append((n, v))
        c = calc(None, s, n + ' = ')
        if r.random() < 0.3: c.set('var', 'p%d' % k[0]); seen['p%d' % k[0]] = v
        return c
    head = []     # definitions at the top level may stand anywhere
    def top(v): k[0] += 1; n = 'g%d' % k[0]; head.append(calc(n, v)); return n
    def form(v, names, n):
        '''ways to write the number v, n: a variable holding it'''
        w = n or v
        o = ['(%s)' % w, '1*%s' % w, '%s+0' % w, '-(-(%s))' % w, '%s*2/2' % w, '(%s*4)*0.25' % w, '%s-0' % w, '%s*cos(0)' % w, 'min(%s,%s)' % (w, w), '%s/1' % w, ' %s ' % w, '%s*sqrt(4)/2' % w, '2*%s-%s' % (w, w), '(1>0) ? %s : 7' % w] + ['%s+0*%s' % (w, q) for q in names] + ([n] * 12 if n else [])
        return r.choice(o)
    rest = t.find('tracking')
    for a in numbers(rest):
        if r.random() < 0.5: v = rest.get(a); rest.set(a, form(v, [], top(v) if r.random() < 0.7 else None))
    for sec in t:
        if sec.tag == 'calc': continue
        new = []
        for e in list(sec):
            if e.tag == 'calc': new.append(e); continue
            own = e.tag in ('undulator', 'wave', 'screen', 'dipole', 'background', 'snapshot', 'mesh', 'point', 'fel1d'); u = False; before = []; inside = {}
            for q in e.iter():
                for a in numbers(q):
                    if r.random() > 0.35: continue
                    v = q.get(a); c = r.choice(['none', 'top', 'before', 'before', 'in', 'in', 'u']); n = None
                    if abs(float(v)) > 1e100: continue
                    if c == 'top': n = top(v)
                    elif c == 'before': k[0] += 1; n = 'v%d' % k[0]; before.append((n, v))
                    elif c == 'u' and not u: n = 'u'; before.append((n, v)); u = True
                    elif c == 'in':
                        at = e if own or (e.tag in ('particle', 'bunch') and q is not e) else None
                        if e.tag == 'bunch' and q.tag in ('time', 'position', 'momentum') and r.random() < 0.5: at = q
                        if e.tag == 'SDDS' and q.tag == 'dir': at = q
                        if at is not None: k[0] += 1; n = 'c%d' % k[0]; inside.setdefault(id(at), (at, []))[1].append((n, v))
                    q.set(a, form(v, r.sample(sorted(seen), min(1, len(seen))), n))
            for n, v in before:
                new.append(calc(n, form(v, [], None))); seen[n] = float(v)
            if r.random() < 0.2: new.append(prnt())
            for at, l in inside.values():
                for n, v in l: at.insert(r.randint(0, len(at)), calc(n, form(v, [], None)))
            if own and r.random() < 0.15: e.insert(r.randint(0, len(e)), prnt())
            for at, l in inside.values():
                for n, v in l: seen[n] = float(v)
            new.append(e)
        for e in list(sec): sec.remove(e)
        for e in new: sec.append(e)
    for _ in range(r.choice([0, 1, 2])): head.append(prnt(scope={}))
    if r.random() < 0.3:   # the constants to all documented digits
        n = r.choice(sorted(CONST)); k[0] += 1; prints.append(('P%d' % k[0], 0.0)); head.append(calc(None, '(%s/%r-1)*1e10' % (n, CONST[n]), 'P%d = ' % k[0]))
    for c in head: t.insert(r.randint(0, len(t)), c)
    return E.tostring(t, encoding='unicode'), prints

def essential(x, r):
    '''a description without something it needs, or with something nobody knows: (op, path, attribute, index)'''
    t, o = nodes_of(x); c = []
    for q, e, up in o:
        if up is None or e.tag == 'calc': continue
        z = q.split('/'); w = z[-2].split(':')[0]; d = len(z); g = e.tag; idx = sum(1 for q2, e2, _ in o[:[j for j, y in enumerate(o) if y[1] is e][0]] if q2 == q)
        if d == 2: c += [('drop', q, None, 0), ('rename', q, None, 0)]
        if d == 3: c += [('rename', q, None, idx)]
        if g in {'particle': ('position', 'momentum'), 'bunch': ('position', 'momentum'), 'undulator': ('position', 'field'), 'wave': ('position', 'field'), 'dipole': ('B', 'n1', 'n2', 'p1', 'p2', 'transition'), 'screen': ('position', 'time', 'hpitch', 'vpitch'),
                 'snapshot': ('position', 'time', 'hpitch', 'vpitch'), 'point': ('position', 'time'), 'fel1d': ('mode', 'pol', 'position', 'prop')}.get(w, ()) and d > 3: c += [(y, q, None, idx) for y in ('drop', 'rename')]
        if 'file' in e.attrib: c += [('noattr', q, 'file', idx)]
        for a in {'tracking': ('delta_t', 'method', 'n'), 'watch': ('step',), 'watch-sdds': ('step',), 'linear': ('dep', 'indep', 'factor'), 'fel1d': ('N',), 'undulator': ('type',), 'wave': ('type',), 'dipole': ('type',), 'hpitch': ('n',), 'vpitch': ('n',)}.get(g, ()) + (('n',) if g == 'time' and w in ('point', 'screen') else ()):
            if a in e.attrib: c += [('noattr', q, a, idx)]
        for a in ('type', 'source', 'method'):
            if a in e.attrib: c += [('word', q, a, idx)]
        if g == 'linear': c += [('rename', q, None, idx)]
    return r.choice(c)

def unreadable(x, r):
    '''a number which nobody can read'''
    t, o = nodes_of(x); c = [(q, a, sum(1 for q2, e2, _ in o[:j] if q2 == q)) for j, (q, e, up) in enumerate(o) if up is not None and e.tag != 'calc' for a in numbers(e)]
    if not c: return None
    q, a, k = r.choice(c); return ['bad', q, a, k, r.choice(['%snosuchname', 'nosuchname', '%s*nosuchname', '%s+', '(%s', '%s)', '%s 3', '', 'sqrt(', '%s..1', '_pi_', '%s*/2', 'later'])]

def args(sc):
    return sc.get('args', ['input.xml'])

def xml(sc):
    if 'calc' not in sc: P = lambda e: [e['xml']]
    else:   # numbers given by variables and expressions, the same values written in another way
        r = random.Random(sc['calc']); k = [0]
        def P(e):
            pre = []; x = e['xml']; own = x.split(None, 1)[0] in ('<undulator', '<dipole', '<particle', '<bunch', '<fel1d', '<screen', '<snapshot', '<point-observer', '<background') and not x.split('>', 1)[0].endswith('/'); kid = []
            def sub(m):
                if r.random() > 0.25: return m.group(0)
                k[0] += 1; v = r.choice(['v%d' % k[0], 'v%d' % k[0], 'u']) if not kid and not pre else 'v%d' % k[0]; c = r.randrange(3)
                if c == 0 and own and not (x.startswith('<bunch') or x.startswith('<particle')): kid.append('<calc var="%s" eq="%s"/>' % (v, m.group(2))); return '%s="%s"' % (m.group(1), v)
                if c == 1: pre.append('<calc var="%s" eq="%s"/>' % (v, m.group(2))); return '%s="%s"' % (m.group(1), v)
                return '%s="%s"' % (m.group(1), r.choice(['(%s)', '1*%s', '%s+0', '-(-(%s))']) % m.group(2))
            y = re.sub(r'\b(x|y|z)="([-+0-9.e]+)"', sub, x)
            if kid: q = y.index('>') + 1; y = y[:q] + ''.join(kid) + y[q:]
            if r.random() < 0.1: pre.append('<calc print="value %d = " eq="%s"/>' % (k[0], f(r.uniform(0, 1))))
            return pre + [y]
    o = ['<?xml version="1.0"?>', '<teufel description="simulated case" author="teusim">']
    o += ['<calc var="dt" eq="%s"/>' % f(sc['dt']), '<lattice>'] + sum((P(e) for e in sc['lattice']), []) + ['</lattice>', '<beam>']
    o += sum((P(e) for e in sc['beam']), []) + ['</beam>']
    o += ['<tracking method="Vay" delta_t="dt" n="%d">' % sc['nots']] + sum((P(e) for e in sc['tracking']), []) + ['</tracking>', '<observer>']
    o += sum((P(e) for e in sc['observers']), []) + ['</observer>', '</teufel>']
    return '\n'.join(o) + '\n'

def outputs(sc):
    """name -> description of every file the run has to write"""
    r = {}
    if sc['prog'] != 'teufel':
        for o in sc['outs']: r[o['out']] = o
        return r
    for b in sc['beam']:
        for k in ('log', 'traj', 'probe'):
            if k in b: r[b[k]['out']] = b[k]
    for t in sc['tracking']:
        if t['kind'] == 'fel':
            if 'out' in t: r[t['out']] = t
        elif 0 <= t['step'] <= sc['nots']: r[t['out']] = t
    for o in sc['observers']: r[o['out']] = o
    return r

def used_inputs(sc):
    u = set()
    for l in ('lattice', 'beam', 'observers'):
        for e in sc.get(l, []):
            if 'input' in e: u.add(e['input'])
    if sc['prog'] != 'teufel': u |= set(sc['inputs'])
    return u

def nop(sc): return sum(b.get('n', 0) for b in sc['beam'])

# ---------------------------------------------------------------- generator
class Gen:
    def __init__(self, seed, want=()):
        self.r = random.Random(seed); self.r2 = random.Random('odd%s' % seed); self.odd = self.r2.random() < 0.12; self.want = set(want); self.k = 0; self.inputs = {}
    def name(self, p, ext):
        self.k += 1; return '%s%d.%s' % (p, self.k, ext)
    def vec(self, s, z=None):
        r = self.r
        return [r.uniform(-s, s), r.uniform(-s, s), r.uniform(-s, s) if z is None else z]

    def lattice(self, with_screen):
        r = self.r; L = self.L; out = []
        n = r.choice([1, 1, 2, 2, 3] if r.random() < 0.95 else [0])
        for _ in range(n):
            k = r.choice(['bg', 'bg', 'undu', 'wave', 'packet', 'hdip', 'sdip', 'tgu'])
            if not out: k = r.choice(['bg', 'undu', 'bg'])
            if k == 'bg':
                e, b = self.vec(1e6), self.vec(1.5)
                x = '<background><E x="%s" y="%s" z="%s"/><B x="%s" y="%s" z="%s"/></background>' % tuple(map(f, e + b))
            elif k in ('undu', 'tgu'):
                N = r.randint(2, 6); per = L / N * r.uniform(0.5, 1.0)
                t = 'planar' if k == 'undu' else 'transverse gradient'
                extra = '' if k == 'undu' else ' kx="%s" modulation="%s"' % (f(r.uniform(0.1, 5)), f(r.uniform(0, 0.02)))
                x = '<undulator name="U" type="%s"><field B="%s" period="%s" N="%d"%s/><position x="0" y="0" z="%s"/></undulator>' % (t, f(r.uniform(0.1, 1.0)), f(per), N, extra, f(L * r.uniform(0.3, 0.7)))
            elif k == 'wave':
                x = '<wave name="w" type="gaussian"><field lambda="%s" ReA="%s" ImA="%s" rayleigh="%s"/><position x="0" y="0" z="%s"/></wave>' % (f(L * r.uniform(0.1, 1)), f(r.uniform(1e5, 1e7)), f(r.uniform(0, 1e6)), f(L * r.uniform(0.5, 3)), f(L * r.uniform(0, 1)))
            elif k == 'packet':
                x = '<wave name="w" type="packet"><field lambda="%s" ReA="%s" ImA="%s" rayleigh="%s" tau="%s"/><position x="0" y="0" z="%s" t="%s"/></wave>' % (f(L * r.uniform(0.1, 1)), f(r.uniform(1e5, 1e7)), f(r.uniform(0, 1e6)), f(L * r.uniform(0.5, 3)), f(self.T * r.uniform(0.2, 1)), f(L * r.uniform(0, 1)), f(self.T * r.uniform(0, 1)))
            else:
                a, b = L * r.uniform(0.05, 0.4), L * r.uniform(0.5, 0.9)
                tr = '<transition l1="%s" l2="%s"/>' % (f(L * 0.05), f(L * 0.05)) if k == 'sdip' else ''
                x = '<dipole name="D" type="%s"><B x="0" y="%s" z="0"/><p1 x="0" y="0" z="%s"/><n1 x="0" y="0" z="-1"/><p2 x="0" y="0" z="%s"/><n2 x="0" y="0" z="1"/>%s</dipole>' % ('soft edge' if k == 'sdip' else 'hard edge', f(r.uniform(-1, 1)), f(a), f(b), tr)
            out.append({'xml': x, 'kind': k})
        for i in range(with_screen):
            nm = self.name('src', 'h5')
            self.inputs[nm] = {'type': 'screen', 'seed': r.randrange(10**6), 'nx': r.randint(3, 4), 'ny': r.randint(3, 4), 'nt': r.randint(12, 24), 'dt': self.T * r.uniform(0.02, 0.05), 'pitch': L * r.uniform(0.02, 0.1), 'dtx': self.dt * r.choice([0, 0, 0.1]), 'dty': self.dt * r.choice([0, 0, -0.07])}
            out.append({'xml': '<screen name="S" file="%s"><position x="0" y="0" z="%s" t="%s"/></screen>' % (nm, f(-L * r.uniform(0.1, 0.4)), f(0.0)), 'kind': 'screen', 'input': nm})
        return out

    def beam(self, total, fel):
        r = self.r; out = []; left = total
        # particles on top of each other, or next to it
        xs = self.xs if r.random() < 0.82 else self.xs * r.choice([0.0, 1e-9, 1e-6, 1e-4]); tight = xs != self.xs
        dp = 0.01 if not tight or r.random() < 0.5 else 1e-9
        while left > 0:
            k = r.choice(['particle', 'bunch', 'bunch', 'bunch', 'sdds']) if left < 20 or r.random() < 0.05 else r.choice(['bunch', 'bunch', 'sdds'])
            if 'random' in self.want: k = 'bunch'
            if 'sdds' in self.want and not out: k = 'sdds'
            if 'fixed' in self.want: k = r.choice(['particle', 'sdds']) if left < 20 else 'sdds'
            if self.nosdds and k == 'sdds': k = 'particle' if left < 20 else 'bunch'
            gamma = self.gamma * r.uniform(0.95, 1.05)
            t0 = 0.0 if fel else r.choice([0.0, 0.0, 0.0, self.dt * r.uniform(0, 1)])
            z0 = self.L * r.uniform(0.0, 0.02)
            if k == 'particle':
                q = r.choice([-1, -1, 1]) * 1e-12 * r.uniform(0.5, 2); cmr = r.choice([-1, 1])
                if fel: q = abs(q)
                elif self.odd and 'plain' not in self.want:   # neutral, heavy, resting or very fast particles, particles that fly backwards
                    q = self.r2.choice([0.0, q, q * 1e3]); cmr = self.r2.choice([0.0, -5.4e-4, cmr, cmr]); gamma = self.r2.choice([1.0, 1 + 1e-6, gamma, gamma, 1e4])
                e = {'kind': k, 'n': 1, 'q': q, 'cmr': cmr, 't0': t0, 'gamma': gamma, 'x0': [r.uniform(-self.xs, self.xs), r.uniform(-self.xs, self.xs), z0]}
                logx = ''
                if r.random() < 0.6:
                    e['log'] = {'kind': 'plog', 'out': self.name('plog', 'sdds'), 'step': r.choice([1, 1, 2, 3, 5])}
                    logx = '<log file="%s" step="%d"/>' % (e['log']['out'], e['log']['step'])
                e['xml'] = '<particle gamma="%s" charge="%s" cmr="%s"><time t0="%s"/><position x="%s" y="%s" z="%s"/><momentum x="%s" y="%s" z="1"/>%s</particle>' % (
                    f(gamma), f(q), f(cmr), f(t0), *map(f, e['x0']), f(r.uniform(-.05, .05)), f(r.uniform(-.05, .05)), logx)
                if self.odd and not fel and 'plain' not in self.want and self.r2.random() < 0.25: e['xml'] = e['xml'].replace(' z="1"/>', ' z="-1"/>', 1)
                n = 1
            else:
                n = r.randint(1, left) if left > 3 and r.random() < 0.7 else left
                e = {'kind': k, 'n': n}; sub = ''
                if r.random() < 0.7 or 'logs' in self.want:
                    e['log'] = {'kind': 'plog', 'out': self.name('log', 'sdds'), 'step': r.choice([1, 1, 2, 3, 4, 7])}
                    bf = ' bunching-freq="%s"' % f(1e12 * r.uniform(0.1, 3)) if r.random() < 0.5 else ''
                    sub += '<log file="%s" step="%d"%s/>' % (e['log']['out'], e['log']['step'], bf)
                if k == 'bunch':
                    if r.random() < 0.6 or 'logs' in self.want:
                        np_ = r.choice([None, None, 1, max(1, n - 1), n, n + 3])
                        e['traj'] = {'kind': 'traj', 'out': self.name('traj', 'h5'), 'step': r.choice([1, 1, 2, 3, 5]), 'np': n if np_ is None else min(n, np_)}
                        sub += '<trajectories file="%s" step="%d"%s/>' % (e['traj']['out'], e['traj']['step'], '' if np_ is None else ' particles="%d"' % np_)
                    if r.random() < 0.3: sub += '<correlations><linear indep="2" dep="5" factor="%s"/></correlations>' % f(r.uniform(-10, 10))
                    e['q'] = -1e-12 * r.uniform(0.5, 3) if not fel else 1e-12; e['cmr'] = -1; e['t0'] = t0
                    if self.odd and not fel and 'plain' not in self.want: e['q'] *= self.r2.choice([0.0, 1, 1, -1]); e['cmr'] = self.r2.choice([-1, -1, 1, 0.0, -5.4e-4])
                    e['xml'] = '<bunch gamma="%s" charge="%s" cmr="%s" n="%d"><time t0="%s"/><position x="%s" y="0" z="%s" xrms="%s" yrms="%s" %s="%s"/><momentum x="0" y="%s" z="1" xrms="%s" yrms="%s" delta="%s"/>%s</bunch>' % (
                        f(gamma), f(e['q']), f(e['cmr']), n, f(t0), f(r.uniform(-self.xs, self.xs)), f(z0), f(xs), f(xs), 'zft' if r.random() < 0.08 else 'zrms', f(self.L * 0.005 * xs / self.xs), f(r.uniform(-.02, .02)), f(dp), f(dp), f(dp), sub)
                else:
                    nm = self.name('bunch', 'sdds')
                    if r.random() < 0.04: nm = 'b' * r.randint(80, 180) + nm
                    dts = self.L * 0.003 / C * xs / self.xs * (1 if fel or r.random() < 0.9 else 100)
                    rows = [[r.gauss(0, xs), r.gauss(0, dp), r.gauss(0, xs), r.gauss(0, dp), r.gauss(0, dts), self.gamma * (1 + r.uniform(-3, 3) * dp)] for _ in range(n)]
                    self.inputs[nm] = {'type': 'sdds', 'rows': rows, 'binary': int(r.random() < 0.4), 'charge': 1e-12 * r.uniform(0.5, 3)}
                    e['input'] = nm; e['q'] = -self.inputs[nm]['charge']; e['cmr'] = -1; e['t0'] = 0.0
                    d = '' if r.random() < 0.6 or fel else '<dir x="%s" y="%s" z="1"/>' % (f(r.uniform(-.1, .1)), f(r.uniform(-.1, .1)))
                    if r.random() < 0.3: e['corr'] = 1; sub += '<correlations><linear indep="%d" dep="%d" factor="%s"/></correlations>' % (r.choice([2, 0]), r.choice([5, 3]), f(r.uniform(-10, 10)))
                    e['xml'] = '<SDDS file="%s">%s%s</SDDS>' % (nm, d, sub)
            out.append(e); left -= n
        return out

    def window(self, P):
        """arrival time window of the radiation at P"""
        beta = math.sqrt(1 - 1 / self.gamma ** 2)
        ts = math.dist([0, 0, 0], P) / C
        te = self.T + math.dist([0, 0, beta * C * self.T], P) / C
        lo, hi = min(ts, te), max(ts, te)
        return lo, hi - lo

    def observer(self, kind, src):
        r = self.r; L = self.L
        cells = r.randint(1, 3), r.randint(1, 4); mc = r.randint(1, 3), r.randint(1, 2); big = self.big and src in self.big
        P = [r.uniform(-.5, .5) * L, r.uniform(-.5, .5) * L, L * r.uniform(1.2, 3)]
        lo, w = self.window(P); nt = r.randint(5, 24)
        if big:   # buffers of many thousand values, also of powers of two
            self.big = ''
            if r.random() < 0.5: c = r.choice([(1, 1), (8, 8), (4, 16), (2, 8)]); nt = r.choice([4096, 8192, 16384]) // (c[0] * c[1])
            else: c = r.randint(1, 9), r.randint(1, 12); nt = r.randint(1200, 12000) // (c[0] * c[1])
            if kind == 'point': nt = r.choice([4096, 5000, 8192, 12000]); c = 1, 1
            if kind == 'snapshot': c = r.choice([(127, 63), (31, 127), (70, 40), (5, 900)])
            if kind == 'mesh' and c[0] * c[1] > 1: c = c[0], max(1, c[1] // 2)
            elif kind == 'mesh': nt //= 2
            cells = mc = c
        dt = 1.2 * w / nt; t0 = lo - 0.1 * w
        sx = '' if src == 'beam' and r.random() < 0.3 else ' source="%s"' % src
        o = {'kind': kind, 'source': src}
        if kind == 'point':
            o['out'] = self.name('point', 'sdds')
            o['xml'] = '<point file="%s"%s><position x="%s" y="%s" z="%s"/><time t0="%s" dt="%s" n="%d"/></point>' % (o['out'], sx, *map(f, P), f(t0), f(dt), nt)
        elif kind == 'screen':
            o['out'] = self.name('screen', 'h5')
            dd = r.choice([0, 0, 1])
            o['xml'] = '<screen file="%s"%s><position x="%s" y="%s" z="%s"/><hpitch x="%s" y="0" z="0" n="%d"%s/><vpitch x="0" y="%s" z="0" n="%d"%s/><time t0="%s" dt="%s" n="%d"/></screen>' % (
                o['out'], sx, *map(f, P), f(L * .05), cells[0], ' dt="%s"' % f(dt * .3) if dd else '', f(L * .05), cells[1], ' dt="%s"' % f(-dt * .2) if dd else '', f(t0), f(dt), nt)
            if self.r2.random() < 0.12:   # any orientation
                a, b = self.r2.uniform(-1.4, 1.4), self.r2.uniform(-1.4, 1.4)
                o['xml'] = o['xml'].replace('<hpitch x="%s" y="0" z="0"' % f(L * .05), '<hpitch x="%s" y="0" z="%s"' % (f(L * .05 * math.cos(a)), f(L * .05 * math.sin(a)))).replace('<vpitch x="0" y="%s" z="0"' % f(L * .05), '<vpitch x="0" y="%s" z="%s"' % (f(L * .05 * math.cos(b)), f(L * .05 * math.sin(b))))
        elif kind == 'snapshot':
            o['out'] = self.name('snap', 'h5')
            ts = self.T * r.uniform(0.3, 0.95)
            z = C * ts * r.uniform(0.2, 0.9)
            o['xml'] = '<snapshot file="%s"%s><position x="%s" y="0" z="%s"/><hpitch x="0" y="0" z="%s" n="%d"/><vpitch x="%s" y="0" z="0" n="%d"/><time t0="%s"/></snapshot>' % (
                o['out'], sx, f(L * .05 * r.uniform(-1, 1)), f(z), f(L * .03), cells[0] + 1, f(L * .03), cells[1] + 1, f(ts))
            o['t0'] = ts
        else:
            o['out'] = self.name('mesh', 'h5'); o['input'] = o['out']
            z = L * r.uniform(1.2, 2.5); lo, w = self.window([0, 0, z])
            self.inputs[o['out']] = {'type': 'mesh', 'seed': r.randrange(10**6), 'nx': mc[0], 'ny': mc[1], 'nt': nt, 'pitch': L * .1, 'z': z, 't0': lo - .1 * w, 'dt': 1.2 * w / nt, 'tilt': r.uniform(-.2, .2), 't0slope': dt * r.choice([0, 0.1]), 'field': r.random() < 0.25}
            o['xml'] = '<mesh file="%s"%s/>' % (o['out'], sx)
        return o

    def make(self):
        r = self.r; w = self.want
        self.dt = 10 ** r.uniform(-12.3, -11.2); nots = r.randint(3, 14); self.T = self.dt * nots; self.L = C * self.T; self.xs = 0
        if 'long' in w: nots = r.randint(20, 40); self.T = self.dt * nots; self.L = C * self.T
        size = r.random(); self.big = ''
        if size < 0.03 and 'long' not in w: nots = r.choice([r.randint(60, 250), 100, 128, 101]); self.T = self.dt * nots; self.L = C * self.T
        if size > 0.994 and not w & {'long', 'fel'}: nots = r.choice([256, 257, 300, 512, 1000, 1001, 1024, r.randint(250, 1300), r.randint(1300, 4000)]); self.T = self.dt * nots; self.L = C * self.T
        self.gamma = r.uniform(3, 12); self.xs = 0.02 * self.L
        fel = 0
        if 'fel' in w or (r.random() < 0.15 and 'nofel' not in w and nots < 251): fel = r.choice([1, 1, 2])
        self.nosdds = False
        n = r.choice([1, 2, 3, 3, 4, 5, 6, 7, 8, 9, 11, 13])
        if 'small' in w: n = r.randint(1, 4)
        elif 0.03 < size < 0.07: n = r.choice([r.randint(14, 60), r.randint(60, 400), 64, 100, 128])
        elif 0.988 < size < 0.994: n = r.choice([r.randint(400, 1200), 500, 512, 1000, 1024])
        if size > 0.994: n = min(n, 3)
        many = n > 60
        if 0.07 < size < 0.11 and 'nobig' not in w: self.big = r.choice(['beam', 'lattice', 'beam lattice']); n = min(n, 3)
        if r.random() < 0.04 and not fel: n = 0
        ns = 0
        if 'source' in w: ns = r.choice([1, 1, 2])
        elif r.random() < 0.08 and 'nosource' not in w: ns = 1
        sc = {'prog': 'teufel', 'dt': self.dt, 'nots': nots}
        if r.random() < 0.15: sc['calc'] = r.randrange(10**6)
        sc['lattice'] = self.lattice(ns)
        sc['beam'] = self.beam(n, fel)
        if r.random() < 0.25 and n > 0 and 'noprobe' not in w or 'probe' in w:
            k = r.choice([1, 2, 5]); st = r.choice([1, 2, 3]); nm = self.name('probe', 'h5')
            sc['beam'].append({'kind': 'probe', 'n': 0, 'probe': {'kind': 'probe', 'out': nm, 'step': st, 'number': k}, 'xml': '<probe file="%s" step="%d" number="%d"/>' % (nm, st, k)})
        tr = []
        for _ in range(r.choice([0, 1, 2, 3]) if 'watch' not in w else r.choice([2, 3, 4])):
            t = r.choice(['watch', 'watch-sdds']); st = r.choice([0, nots, r.randint(0, nots), r.randint(0, nots), nots + r.choice([0, 0, 0, 1, -1]), r.choice([0, nots]) if r.random() < 0.9 else -1])
            nm = self.name('watch', 'h5' if t == 'watch' else 'sdds')
            tr.append({'kind': t, 'out': nm, 'step': st, 'xml': '<%s step="%d" file="%s"/>' % (t, st, nm)})
        for _ in range(fel):
            N = r.randint(24, 60); e = {'kind': 'fel'}
            lg = ''
            if r.random() < 0.8:
                e['out'] = self.name('fel', 'h5'); e['step'] = r.choice([1, 1, 2, 3]); e['N'] = N
                lg = '<log file="%s" step="%d"/>' % (e['out'], e['step'])
            ds = C * self.dt
            sd = '<seed E0="%s" lambda="%s" tau="%s" tstart="%s"/>' % (f(10 ** r.uniform(6, 8)), f(ds * r.uniform(4, 10)), f(self.dt * r.uniform(5, 15)), f(self.dt * N * 0.4)) if r.random() < 0.6 else ''
            px, py = (0, 0) if r.random() < 0.6 else (r.uniform(-.1, .1), r.uniform(-.1, .1))
            e['xml'] = '<fel1d N="%d"><position x="0" y="0" z="%s"/><prop x="%s" y="%s" z="1"/><pol x="%s" y="%s" z="0"/>%s<mode zR="%s" w0="%s" zwaist="0"/>%s</fel1d>' % (N, f(ds * r.uniform(8, 14)), f(px), f(py), *((1, 0) if r.random() < 0.6 else (f(r.uniform(-1, 1)), 1)), lg, f(self.L), f(ds), sd)
            tr.insert(r.randint(0, len(tr)), e)
        sc['tracking'] = tr
        ob = []
        kinds = ['point', 'screen', 'snapshot', 'mesh'] if not many else ['point', 'snapshot']
        no = r.choice([0, 1, 1, 2, 3])
        if 'obs' in w: no = r.choice([2, 3, 4])
        if many: no = min(no, 2)
        if 'noobs' in w: no = 0
        for _ in range(no):
            k = r.choice(kinds); s = 'lattice' if r.random() < 0.35 else 'beam'
            if 'beamobs' in w: s = 'beam'
            if 'latobs' in w: s = 'lattice'
            if 'snap' in w and not ob: k = 'snapshot'
            ob.append(self.observer(k, s))
        sc['observers'] = ob
        sc['inputs'] = self.inputs
        return sc

    def bulk(self, kind):
        """an input which uses many files of one kind"""
        r = self.r; self.want = {'small', 'nofel', 'nosource', 'noobs', 'noprobe'}; m = r.randint(11, 22)
        if kind == 'source': self.want |= {'latobs'}
        if kind == 'fel': self.want -= {'nofel'}; self.want |= {'fel'}
        sc = self.make(); nots = sc['nots'] = min(sc['nots'], 14); self.T = self.dt * nots; self.L = C * self.T; self.nosdds = False
        for t in sc['tracking']:
            if t['kind'] != 'fel' and t['step'] > nots: t['xml'] = t['xml'].replace('step="%d"' % t['step'], 'step="%d"' % nots); t['step'] = nots
        if kind in ('watch', 'watch-sdds'):
            for _ in range(m):
                nm = self.name('watch', 'h5' if kind == 'watch' else 'sdds'); st = r.randint(0, nots)
                sc['tracking'].append({'kind': kind, 'out': nm, 'step': st, 'xml': '<%s step="%d" file="%s"/>' % (kind, st, nm)})
        elif kind in ('point', 'screen', 'snapshot', 'mesh'):
            for _ in range(m): sc['observers'].append(self.observer(kind, 'lattice' if r.random() < 0.7 else 'beam'))
        elif kind in ('sdds', 'particle', 'logs'):
            self.want = {'sdds', 'logs'} if kind == 'sdds' else {'fixed', 'logs'} if kind == 'particle' else {'random', 'logs'}
            for _ in range(m): sc['beam'] += self.beam(1 if kind != 'logs' else r.randint(1, 2), 0)
        elif kind == 'source': sc['lattice'] += [e for e in self.lattice(m - 2) if e['kind'] == 'screen']
        elif kind == 'fel':
            f0 = [t for t in sc['tracking'] if t['kind'] == 'fel'][0]
            for _ in range(m - 2):
                t = json.loads(json.dumps(f0)); n = self.name('fel', 'h5')
                if 'out' in t: t['xml'] = t['xml'].replace(t['out'], n); t['out'] = n
                sc['tracking'].append(t)
        return sc

def make_sample(seed):
    """random bunches large enough to judge their distribution"""
    g = Gen(seed, {'small', 'nofel', 'nosource', 'noobs', 'noprobe'}); r = g.r; sc = g.make(); sc['beam'] = []; sc['tracking'] = []; sc['observers'] = []
    sc['nots'] = nots = r.choice([1, 1, 2, 3]); left = r.randint(300, 800); m = r.choice([1, 1, 2, 3]); t0 = 0.0
    for k in range(m):
        n = max(150, left // m + r.choice([0, 0, 1, -1]) * r.randint(0, 40)); gam = r.choice([g.gamma, r.uniform(1.5, 500)]); sub = ''
        pos = [r.choice([0.0, r.uniform(-1, 1)]) * 1e-3 for _ in range(3)]; d = [r.uniform(-.3, .3), r.uniform(-.3, .3), 1.0] if r.random() < 0.6 else [0.0, 0.0, 1.0]
        z = lambda v: 0.0 if r.random() < 0.15 else v
        S = [z(10 ** r.uniform(-6, -3)) for _ in range(3)] + [z(10 ** r.uniform(-4, -2)) for _ in range(3)]; flat = r.random() < 0.3 and S[2] != 0
        cor = []
        for _ in range(r.choice([0, 0, 1, 1, 2, 3])):
            a, b = r.sample(range(6), 2); sa, sb = [S[j] or 1e-5 for j in (a, b)]
            bg = math.sqrt(gam * gam - 1); sa *= bg if a > 2 else 1; sb *= bg if b > 2 else 1
            cor.append([a, b, float(f(r.uniform(-2, 2) * sb / sa))])
        if cor: sub = '<correlations>' + ''.join('<linear indep="%d" dep="%d" factor="%s"/>' % (a, b, f(c)) for a, b, c in cor) + '</correlations>'
        at = ' '.join('%s="%s"' % (nm, f(v)) for nm, v in (('xrms', S[0]), ('yrms', S[1]), ('zft' if flat else 'zrms', S[2])) if v or r.random() < 0.5)
        mo = ' '.join('%s="%s"' % (nm, f(v)) for nm, v in (('xrms', S[3]), ('yrms', S[4]), ('delta', S[5])) if v or r.random() < 0.5)
        e = {'kind': 'bunch', 'n': n, 'q': -1e-12 * r.uniform(0.5, 3), 'cmr': -1, 't0': t0}
        e['sample'] = {'pos': [float(f(v)) for v in pos], 'dir': [float(f(v)) for v in d], 'gamma': float(f(gam)), 'S': [float(f(v)) for v in S], 'flat': flat, 'cor': cor}
        e['xml'] = '<bunch gamma="%s" charge="%s" cmr="-1" n="%d"><time t0="0"/><position x="%s" y="%s" z="%s" %s/><momentum x="%s" y="%s" z="%s" %s/>%s</bunch>' % (
            (f(gam), f(e['q']), n) + tuple(f(v) for v in pos) + (at,) + tuple(f(v) for v in d) + (mo, sub))
        sc['beam'].append(e)
    return drop_unused(sc)

def blank(dt, nots): return {'prog': 'teufel', 'dt': dt, 'nots': nots, 'lattice': [], 'beam': [], 'tracking': [], 'observers': [], 'inputs': {}}

def make_placed(seed):
    """SDDS bunches in any direction, with the exact numbers kept for a model"""
    r = random.Random(seed ^ 0x91ace); sc = blank(10 ** r.uniform(-13, -11), r.choice([1, 1, 2, 5])); xs = 10 ** r.uniform(-5, -2.5); axis = lambda: [0.0, r.choice([-1, 0, 0, 1]) * r.uniform(0, 1), 0.0]
    for k in range(r.choice([1, 1, 2, 2, 3, 4])):
        if k and r.random() < 0.15: nm = r.choice(sorted(sc['inputs']))
        else:
            nm = 'in%d.sdds' % k; n = r.choice([4, 5, 7, r.randint(4, 60), r.randint(4, 60), r.randint(60, 300)]); g = 10 ** r.uniform(-1.5, 2.5); ang = r.choice([1e-3, 0.1, 0.7]); dt = 10 ** r.uniform(-14, -11.5); T = r.choice([0.0, 0.0, r.uniform(-1, 1) * 1e-9])
            sc['inputs'][nm] = {'type': 'sdds', 'binary': int(r.random() < 0.5), 'charge': 10 ** r.uniform(-16, -9), 'rows': [[float(f(v)) for v in (r.gauss(0, xs), r.gauss(0, ang), r.gauss(0, xs), r.gauss(0, ang), T + r.gauss(0, dt), g * r.uniform(0.8, 1.2))] for _ in range(n)]}
        c = r.random(); cor = []
        if c < 0.3: d = None
        elif c < 0.45: d = [0.0, 0.0, r.choice([1.0, 2.5, 1e-3])]
        elif c < 0.7: d = [r.uniform(-1, 1), 0.0, r.uniform(-1, 1)]
        elif c < 0.8: d = [r.choice([1, -1]) * 1.0, r.choice([0.0, r.uniform(-.5, .5)]), r.choice([0.0, r.uniform(-.5, .5)])]
        else: d = [r.gauss(0, 1) for _ in range(3)]
        if d: d = [float(f(v)) for v in d]
        if (d is None or d[:2] == [0.0, 0.0]) and r.random() < 0.6:
            for _ in range(r.choice([1, 1, 2, 3])): a, b = r.sample(range(6), 2); cor.append([a, b, float(f(r.uniform(-1, 1) * (1 if a // 3 == b // 3 else xs if a > 2 else 1 / xs)))])
        x = '<SDDS file="%s">' % nm + ('<dir x="%s" y="%s" z="%s"/>' % tuple(f(v) for v in d) if d else '')
        if cor: x += '<correlations>' + ''.join('<linear indep="%d" dep="%d" factor="%s"/>' % (a, b, f(v)) for a, b, v in cor) + '</correlations>'
        sp = sc['inputs'][nm]; sc['beam'].append({'kind': 'sdds', 'n': len(sp['rows']), 'input': nm, 'q': -sp['charge'], 'cmr': -1, 't0': 0.0, 'dir': d, 'cor': cor, 'xml': x + '</SDDS>'})
    return sc

def make_motion(seed):
    """particles with exactly known initial conditions in homogeneous fields"""
    r = random.Random(seed ^ 0x307e); w = 10 ** r.uniform(-2, -0.6); n = r.randint(4, 40); T = 10 ** r.uniform(-12, -8); dt = float(f(T / n)); sc = blank(dt, n)
    cm = r.choice([-1.0, -1.0, 1.0, -0.5, 5.4e-4]); g = 1 + 10 ** r.uniform(-2, 1.5); K = 1.7588e11 * abs(cm); field = w / dt / K   # turn per step of w rad at rest
    vec = lambda m: [float(f(m * v)) for v in (lambda u: [c / math.sqrt(sum(q * q for q in u)) for c in u])([r.gauss(0, 1) for _ in range(3)])]
    m = r.choice([1, 1, 2, 3]); k = r.choice(['B', 'B', 'E', 'EB', 'EB']); tot = [0.0] * 6
    for _ in range(m):
        F = (vec(field * C * r.uniform(0, 1)) if 'E' in k else [0.0] * 3) + (vec(field * r.uniform(.2, 1)) if 'B' in k else [0.0] * 3)
        sc['lattice'].append({'kind': 'background', 'xml': '<background>' + ('<E x="%s" y="%s" z="%s"/>' % tuple(map(f, F[:3])) if 'E' in k else '') + ('<B x="%s" y="%s" z="%s"/>' % tuple(map(f, F[3:])) if 'B' in k else '') + '</background>'})
        tot = [a + b for a, b in zip(tot, F)]
    sc['F'] = tot
    if r.random() < 0.3:     # a field that changes with time and place: no exact solution
        lam = C * T * r.uniform(0.5, 3); zr = lam * r.uniform(3, 10); E0 = field * C * r.uniform(0.2, 1); sc['wave'] = [lam, E0]; pk = r.random() < 0.6; z = '<position x="0" y="0" z="%s"' % f(-lam * r.uniform(2, 5))
        sc['lattice'].insert(r.randint(0, m), {'kind': 'wave', 'xml': '<wave name="w" type="%s"><field lambda="%s" ReA="%s" ImA="%s" rayleigh="%s"%s/>%s%s/></wave>' % (
            'packet' if pk else 'gaussian', f(lam), f(E0 * r.uniform(-1, 1)), f(E0 * r.uniform(-1, 1)), f(zr), ' tau="%s"' % f(T * r.uniform(1, 4)) if pk else '', z, ' t="%s"' % f(-lam * r.uniform(2, 5) / C + T) if pk else '')})
    for _ in range(r.choice([1, 2, 3, 5, 9, 17])):
        c = r.choice([cm, cm, -cm]); x, d, t0 = vec(r.uniform(0, 1e-2)), vec(1.0), r.choice([0.0, 0.0, float(f(r.uniform(-5, 5) * dt))]); q = 1e-15 * r.choice([1, -1, 7]); q = math.copysign(q, c); gg = float(f(r.choice([g, 1.0, 1 + (g - 1) * r.random()])))
        sc['beam'].append({'kind': 'particle', 'n': 1, 'q': q, 'cmr': c, 't0': t0, 'x0': x, 'd': d, 'gamma': gg, 'xml': '<particle gamma="%s" charge="%s" cmr="%s">%s<position x="%s" y="%s" z="%s"/><momentum x="%s" y="%s" z="%s"/></particle>' % (
            (f(gg), f(q), f(c), '<time t0="%s"/>' % f(t0) if t0 or r.random() < 0.5 else '') + tuple(map(f, x)) + tuple(map(f, d)))})
    return sc

def make_bulk(seed, kind): return Gen(seed).bulk(kind)

def make(seed, want=()):
    return Gen(seed, want).make()

def make_tool(prog, seed, want=()):
    """input of the propagate / reflection tools: source mesh with fields, target mesh, output file"""
    r = random.Random(seed ^ 0x5eed); w = set(want)
    nt = r.randint(8, 20); dt = 10 ** r.uniform(-12, -11.3); D = C * dt * nt * r.uniform(0.3, 1.2)
    pitch = D * r.uniform(0.05, 0.3)
    nx, ny = r.randint(1, 3), r.randint(1, 2)
    if 'cells' in w: nx, ny = r.randint(2, 4), r.randint(2, 3)
    if 'tiny' in w: nx, ny, nt = 1, 1, r.randint(5, 8)
    sgn = 1 if prog == 'propagate' else -1
    src = {'type': 'mesh', 'seed': r.randrange(10**6), 'nx': nx, 'ny': ny, 'nt': nt, 'pitch': pitch, 'z': 0.0, 't0': r.choice([0.0, dt * r.uniform(-5, 5)]), 'dt': dt,
           'field': True, 'sign': 1.0, 'tilt': r.uniform(-.2, .2), 't0slope': dt * r.choice([0, 0, 0.2, 1.0]), 'rough': r.choice([0, 0.05]), 'flip': r.random() < 0.5}
    tx, ty = r.randint(1, 3), r.randint(1, 3)
    if 'tiny' in w: tx, ty = r.randint(1, 2), 1
    if 'fan' in w: src['fan'] = r.randint(22, 34); tx = ty = 1; src['nt'] = nt = r.randint(5, 8)
    ntt = r.randint(4, nt + 4)
    trg = {'type': 'mesh', 'seed': r.randrange(10**6), 'nx': tx, 'ny': ty, 'nt': ntt, 'pitch': pitch * r.uniform(0.5, 2), 'z': sgn * D, 't0': src['t0'] + D / C + dt * r.uniform(-3, 3), 'dt': dt * r.choice([1, 1, 0.7, 1.3]),
           'tilt': r.uniform(-.2, .2), 't0slope': dt * r.choice([0, 0.1]), 'flip': r.random() < 0.5, 'field': r.random() < 0.3}
    sc = {'prog': prog, 'inputs': {'source.h5': src, 'target.h5': trg}, 'args': ['source.h5', 'target.h5', 'out.h5'], 'outs': [{'kind': 'tool', 'out': 'out.h5'}]}
    if random.Random('place%s' % seed).random() < 0.1 and 'plain' not in w: to_file(sc, 'target.h5')
    return sc

def to_file(sc, name):
    sc['args'][2] = name; sc['outs'][0]['out'] = name

def drop_unused(sc):
    u = used_inputs(sc)
    sc['inputs'] = {k: v for k, v in sc['inputs'].items() if k in u}
    return sc
