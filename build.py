#!/usr/bin/env python3
"""Builds the simulator and the simulated nodes from the working tree of /repo (cached by content)."""
import os, sys, hashlib, subprocess, glob, shutil, fcntl, re
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('TEUFEL_REPO', '/repo')
OUT = os.path.join(V, 'build')
MAINS = {'teufel': 'teufel_hybrid.cpp', 'propagate': 'propagate.cpp', 'reflection': 'reflection.cpp'}
INC = ['-I%s/src' % REPO, '-I%s/lib/SDDS' % REPO, '-I/usr/include/eigen3', '-I/usr/include/hdf5/serial',
       '-I/usr/lib/x86_64-linux-gnu/openmpi/include', '-I/usr/lib/x86_64-linux-gnu/openmpi/include/openmpi']
APP = ['g++', '-std=c++11', '-O1', '-g1', '-fPIC', '-fopenmp', '-fsanitize=thread', '-fno-gnu-unique', '-fno-builtin-memcpy', '-ffp-contract=off', '-DOMPI_SKIP_MPICXX', '-w']
SIM = ['g++', '-std=c++17', '-O2', '-g1', '-w', '-fno-strict-aliasing', '-fno-builtin-malloc', '-fno-builtin-free']
WRAP = ['exit', '_exit', 'abort', '__assert_fail', 'memcpy', 'memset', 'memmove', 'malloc', 'calloc', 'realloc', 'free'] + ['SDDS_' + f for f in ('InitializeOutput', 'InitializeInput', 'DefineColumn', 'DefineSimpleParameter', 'WriteLayout', 'StartPage', 'WritePage', 'ReadPage',
        'GetColumnInDoubles', 'GetParameterAsDouble', 'GetParameterAsLong', 'Terminate', 'SetRowValues', 'SetParameters')]
NLIB = 34

def sh(cmd, **kw):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, **kw)
    if r.returncode:
        sys.stderr.write(' '.join(cmd) + '\n' + r.stdout.decode(errors='replace')[-6000:])
        raise SystemExit(3)
    return r.stdout

def h(*parts):
    m = hashlib.sha256()
    for p in parts:
        m.update(p if isinstance(p, bytes) else str(p).encode()); m.update(b'\0')
    return m.hexdigest()[:20]

def rd(p):
    with open(p, 'rb') as f: return f.read()

def config_h(d):
    t = rd(REPO + '/src/config.h.in').decode()
    cm = rd(REPO + '/CMakeLists.txt').decode()
    vals = dict(re.findall(r'set\s*\(\s*(\w+)\s+"?([^")\s]+)"?\s*\)', cm))
    m = re.search(r'project\s*\([^)]*VERSION\s+(\d+)\.(\d+)(?:\.(\d+))?', cm)
    t = re.sub(r'@(\w+)@', lambda k: vals.get(k.group(1), '0'), t)
    t = re.sub(r'\$\{(\w+)\}', lambda k: vals.get(k.group(1), '0'), t)
    t = re.sub(r'#cmakedefine\s+(\w+).*', r'/* \1 */', t)
    os.makedirs(d, exist_ok=True)
    p = d + '/config.h'
    if not os.path.exists(p) or rd(p).decode() != t:
        open(p, 'w').write(t)

def prune(d, keep):
    xs = sorted(glob.glob(d + '/*'), key=os.path.getmtime, reverse=True)
    for x in xs[keep:]:
        shutil.rmtree(x, ignore_errors=True) if os.path.isdir(x) else os.remove(x)

def build(progs=('teufel', 'propagate', 'reflection'), quiet=True):
    os.makedirs(OUT + '/obj', exist_ok=True); os.makedirs(OUT + '/sets', exist_ok=True)
    lock = open(OUT + '/lock', 'w'); fcntl.flock(lock, fcntl.LOCK_EX)
    try:
        return _build(progs, quiet)
    finally:
        lock.close()

def _build(progs, quiet):
    config_h(OUT + '/config')
    hdr = h(*[rd(f) for f in sorted(glob.glob(REPO + '/src/*.h')) + [OUT + '/config/config.h']], ' '.join(APP))
    srcs = [s for s in sorted(glob.glob(REPO + '/src/*.cpp'))]
    jobs = []; objs = {}
    for s in srcs:
        b = os.path.basename(s)
        if b in MAINS.values() and b not in [MAINS[p] for p in progs]: continue
        k = h(rd(s), hdr, b); o = '%s/obj/%s.%s.o' % (OUT, b[:-4], k); objs[b] = o
        if not os.path.exists(o): jobs.append(('app', s, o, b))
        else: os.utime(o)
    # simulator
    sdir = V + '/sim'; sfiles = sorted(glob.glob(sdir + '/*.cpp') + glob.glob(sdir + '/*.c'))
    shdr = h(*[rd(f) for f in sorted(glob.glob(sdir + '/*.h'))], ' '.join(SIM)); sobjs = []
    for s in sfiles:
        b = os.path.basename(s); o = '%s/obj/sim_%s.%s.o' % (OUT, b, h(rd(s), shdr)); sobjs.append(o)
        if not os.path.exists(o): jobs.append(('sim', s, o, b))
        else: os.utime(o)
    nw = V + '/sim/node/sdds_wrap.c'; nwo = '%s/obj/node_sdds.%s.o' % (OUT, h(rd(nw)))
    if not os.path.exists(nwo): jobs.append(('sim', nw, nwo, 'sdds_wrap.c'))
    else: os.utime(nwo)
    big = {'propagate.cpp': 0, 'reflection.cpp': 0, 'mesh.cpp': 1}
    jobs.sort(key=lambda j: big.get(j[3], 2))
    def comp(j):
        kind, s, o, b = j; t = o + '.tmp%d.o' % os.getpid()
        if kind == 'app':
            sh(APP + ['-I' + OUT + '/config'] + INC + ['-c', s, '-o', t])
            if b in MAINS.values(): sh(['objcopy', '--redefine-sym', 'main=teusim_entry', t])
        elif s.endswith('.c'): sh(['gcc', '-O1', '-fPIC', '-c', s, '-o', t])
        else: sh(SIM + INC[2:] + ['-c', s, '-o', t])
        os.rename(t, o)
    with ThreadPoolExecutor(8) as ex: list(ex.map(comp, jobs))
    # libraries, one set per content
    lib = [o for b, o in sorted(objs.items()) if b not in MAINS.values()]
    sd = ['%s/lib/SDDS/%s' % (REPO, x) for x in ('libSDDS1.a', 'libmdblib.a', 'libmdbcommon.a', 'liblzma.a')]
    setid = h(*[os.path.basename(o) for o in lib + [nwo] + [objs[MAINS[p]] for p in sorted(progs)] + sobjs], *[rd(x) for x in sd], ' '.join(WRAP))
    d = OUT + '/sets/' + setid
    if not os.path.exists(d + '/ok'):
        shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
        for p in progs:
            sh(['g++', '-shared', '-o', '%s/%s.0.so' % (d, p), objs[MAINS[p]], nwo] + lib + ['-L%s/lib/SDDS' % REPO, '-l:libSDDS1.a', '-l:libmdblib.a', '-l:libmdbcommon.a', '-l:liblzma.a',
                '-L/usr/lib/x86_64-linux-gnu/hdf5/serial', '-lhdf5_serial', '-lpugixml', '-lmuparser', '-lz', '-Wl,-Bsymbolic', '-Wl,-z,now'] + ['-Wl,--wrap=' + w for w in WRAP])
        for i in range(1, NLIB): shutil.copyfile(d + '/teufel.0.so', '%s/teufel.%d.so' % (d, i))
        sh(['g++', '-o', d + '/teusim'] + sobjs + ['-rdynamic', '-L/usr/lib/x86_64-linux-gnu/hdf5/serial', '-lhdf5_serial', '-lpugixml', '-lmuparser', '-lz', '-ldl', '-lm', '-Wl,-z,now', '-Wl,--no-as-needed'])
        open(d + '/ok', 'w').write('ok')
    os.utime(d)
    prune(OUT + "/sets", 4); prune(OUT + '/obj', 300)
    return d

if __name__ == '__main__':
    print(build())
