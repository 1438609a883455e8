"""Independent readers of the output formats, used by the oracles only."""
import struct, re
import numpy as np, h5py

class Bad(Exception): pass

def read_sdds(path):
    with open(path, 'rb') as fh: b = fh.read()
    pos = 0; params = []; cols = []; mode = None
    if not b.startswith(b'SDDS'): raise Bad('no SDDS header')
    pos = b.index(b'\n') + 1
    hdr = b''; big = False
    while True:
        e = b.find(b'&end', pos)
        nl = b.find(b'\n', pos)
        if nl >= 0 and b[pos:pos + 1] == b'!':
            if b'big-endian' in b[pos:nl]: big = True
            pos = nl + 1; continue
        if e < 0: raise Bad('header incomplete')
        txt = b[pos:e].decode('latin1'); pos = e + 4
        m = re.match(r'\s*&(\w+)\s*(.*)', txt, re.S)
        if not m: raise Bad('header damaged')
        kv = dict((k, v.strip().strip('"')) for k, v in re.findall(r'(\w+)\s*=\s*("[^"]*"|[^,\s]+)', m.group(2)))
        if m.group(1) == 'parameter': params.append((kv['name'], kv['type']))
        elif m.group(1) == 'column': cols.append((kv['name'], kv['type']))
        elif m.group(1) == 'data':
            mode = kv['mode']; nl = b.find(b'\n', pos)
            if nl < 0: raise Bad('no data')
            pos = nl + 1; colmajor = kv.get('column_major_order', '0') == '1'; break
    par = {}; data = {}
    T = {'double': ('d', 8), 'long': ('i', 4), 'float': ('f', 4), 'short': ('h', 2)}
    if mode == 'ascii':
        lines = [l for l in b[pos:].decode('latin1').split('\n')]
        complete = b.endswith(b'\n')
        it = iter([l for l in lines if not l.startswith('!')])
        try:
            for n, t in params:
                v = next(it); par[n] = float(v) if t in ('double', 'float') else int(v)
            n = int(next(it).split()[0])
            toks = []
            for _ in range(n):
                row = next(it).split()
                if len(row) != len(cols): raise Bad('row incomplete')
                toks.append([float(x) for x in row])
        except (StopIteration, ValueError, IndexError): raise Bad('data incomplete')
        if n and not complete: raise Bad('last line incomplete')
        a = np.array(toks).reshape(n, len(cols))
        for i, (c, t) in enumerate(cols): data[c] = a[:, i]
    else:
        E = '>' if big else '<'
        try:
            (n,) = struct.unpack_from(E + 'i', b, pos); pos += 4
            for nm, t in params:
                c, s = T[t]; par[nm] = struct.unpack_from(E + c, b, pos)[0]; pos += s
            need = n * sum(T[t][1] for _, t in cols)
            if len(b) - pos < need: raise Bad('data incomplete: %d of %d bytes' % (len(b) - pos, need))
            if colmajor:
                for c, t in cols:
                    data[c] = np.frombuffer(b, E + T[t][0], n, pos).copy(); pos += n * T[t][1]
            else:
                a = np.frombuffer(b, E + 'f8', n * len(cols), pos).reshape(n, len(cols))
                for i, (c, t) in enumerate(cols): data[c] = a[:, i].copy()
        except struct.error: raise Bad('data incomplete')
    out = {'par.' + k: np.array(v) for k, v in par.items()}
    out.update({'col.' + k: v for k, v in data.items()})
    out['rows'] = np.array(n)
    return out

def read_h5(path):
    out = {}
    try:
        with h5py.File(path, 'r') as h:
            def visit(n, o):
                if isinstance(o, h5py.Dataset):
                    out[n] = o[()]
                    for k in o.attrs: out[n + '@' + k] = np.array(o.attrs[k])
            h.visititems(visit)
    except (OSError, RuntimeError, KeyError, ValueError) as e:
        raise Bad('HDF5: %s' % e)
    return out

def read(path):
    import os
    if not os.path.exists(path): raise Bad('file is missing')
    try:
        return read_sdds(path) if path.endswith('.sdds') else read_h5(path)
    except Bad: raise
    except Exception as e: raise Bad('%s: %s' % (type(e).__name__, e))

def compare(a, b, tol=None):
    """None if equal; otherwise a short description. tol: relative to the largest value of the dataset"""
    if set(a) != set(b): return 'different contents: %s' % sorted(set(a) ^ set(b))
    for k in sorted(a):
        x, y = np.asarray(a[k]), np.asarray(b[k])
        if x.shape != y.shape: return '%s: shape %s instead of %s' % (k, x.shape, y.shape)
        if x.size == 0: continue
        if tol is None:
            same = (x == y) | ((x != x) & (y != y))
            if not same.all():
                i = np.argwhere(~np.atleast_1d(same))[0]
                return '%s: %d of %d values differ, first at %s: %r instead of %r' % (k, (~np.atleast_1d(same)).sum(), x.size, tuple(int(v) for v in i), float(np.atleast_1d(x)[tuple(i)]), float(np.atleast_1d(y)[tuple(i)]))
        else:
            x = np.atleast_1d(x).astype(float); y = np.atleast_1d(y).astype(float)
            if (np.isfinite(x) != np.isfinite(y)).any(): return '%s: non-finite values differ' % k
            fin = np.isfinite(x) & np.isfinite(y)
            if not fin.any(): continue
            # fields of E and B have very different size: scale per last axis component
            axes = tuple(range(x.ndim - 1)) if x.ndim > 1 else None
            sc = np.max(np.where(fin, np.abs(y), 0), axis=axes, keepdims=True) if axes else np.max(np.abs(np.where(fin, y, 0)))
            d = np.abs(np.where(fin, x - y, 0))
            bad = d > tol * sc + 0.0
            bad &= d > 0
            if bad.any():
                i = np.argwhere(bad)[0]
                return '%s: %d of %d values differ, first at %s: %r instead of %r' % (k, bad.sum(), x.size, tuple(int(v) for v in i), float(x[tuple(i)]), float(y[tuple(i)]))
    return None
