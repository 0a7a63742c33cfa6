"""Running the bindings, and recording what they return."""
import json, os, subprocess
from core import *
import gen

PYTHON = '/opt/resdet-venv/bin/python'

class BindSuite(Suite):
    """Traces of calls on the Python (or JavaScript) bindings."""
    lang = 'python'
    def __init__(self, name, lang='python'):
        super().__init__(name)
        self.lang = lang
        self.jobs = {}
    def calls(self, variant, ops):
        tid = '%s%d' % (self.name, len(self.jobs))
        self.jobs[tid] = (variant, ops)
        return tid
    def config(self, v): return v
    def execute(self, v, base):
        cmd, env = self.command(v, base)
        r = subprocess.run(cmd, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=env, cwd=self.dir, text=True, errors='replace')
        if r.returncode: raise CheckError('driver: exit %d %s' % (r.returncode, r.stdout[-2000:]))
        return self.recorded(base), r.stdout
    def recorded(self, base):
        ev = {}
        for l in open(base + '.out'):
            if l.strip():
                try: e = json.loads(l)
                except ValueError: continue
                ev.setdefault(e.pop('t'), []).append(e)
        return ev
    def command(self, variant, base):
        b = build(variant, driver=False)
        env = dict(os.environ, LD_LIBRARY_PATH=b.dir, PYTHONPATH=os.path.join(b.dir, 'bindings', 'python'), PYTHONDONTWRITEBYTECODE='1', MAGICK_THREAD_LIMIT='1', OMP_NUM_THREADS='1', OPENBLAS_NUM_THREADS='1')
        return [PYTHON, os.path.join(VERIF, 'harness', 'pydrive.py'), base + '.json', os.path.join(self.dir, 'images.bin'), base + '.out'], env
    def prepare(self):
        builds(sorted({j[0] for j in self.jobs.values()}), driver=False)
    def runjobs(self, ids=None):
        self.prepare()
        offs, off = {}, 0
        with open(os.path.join(self.dir, 'images.bin'), 'wb') as f:
            for n, p in enumerate(self.pix):
                f.write(p.tobytes())
                offs[n + 1] = [off, p.shape[1], p.shape[0]]
                off += p.size
        shards = []
        for v in sorted({j[0] for j in self.jobs.values()}):
            ts = [t for t, j in self.jobs.items() if j[0] == v and (ids is None or t in ids)]
            n = max(1, min(NPROC, len(ts) // 4))
            shards += [(v, k, ts[k::n]) for k in range(n) if ts[k::n]]
        def one(j):
            v, k, ts = j
            base = os.path.join(self.dir, 'j-%s-%d' % (v, k))
            with open(base + '.json', 'w') as f:
                json.dump({'offs': offs, 'traces': [{'t': t, 'ops': self.jobs[t][1]} for t in ts]}, f)
            open(base + '.out', 'w').close()
            ev, out = self.execute(v, base)
            for t in ts:
                if t not in ev or ev[t][-1]['op'] not in ('end', 'crash'):
                    raise CheckError('trace %s is incomplete: %s' % (t, out[-2000:]))
            return {t: (self.config(v), [self.project(e) for e in ev[t]], [json.dumps(o) for o in self.jobs[t][1]]) for t in ts}
        res = {}
        with ThreadPoolExecutor(NPROC) as ex:
            for r in ex.map(one, shards): res.update(r)
        if ids is None:
            self.events = res
        return res
    def project(self, e):
        if 'path' in e:
            path = e['path']
            e = super().project(e)
            if 'sys' not in e and path.startswith('/') and not os.path.exists(path):
                try: os.stat(path)
                except OSError as x: e['sys'] = x.errno
        for k in ('why', 'shape', 'fkind', 'how', 'cls', 'own', 'reuse', 'closed'): e.pop(k, None)
        for k in ('w', 'hh'):
            if k in e and e[k] >= 2**30: e[k] = -(e[k].bit_length() - 1)
        if 'n' in e: e['n'] = min(e['n'], 2**31 - 1)
        return e
    def redo(self, ids):
        return self.runjobs(set(ids))

WASM = {
    # name: (definitions, default range, pixel limit)
    'js':       ([], 12, 0),
    'js-range': (['-DDEFAULT_RANGE=3'], 3, 0),
    'js-pmax':  (['-DPIXEL_MAX=48'], 12, 48),
    'js-cD':    (['-DCOEFF_PRECISION=D', '-Dkiss_fft_scalar=double'], 12, 0),
    'js-iF':    (['-DINTER_PRECISION=F'], 12, 0),
}
_wasm = {}
def wasm(v):
    """The library compiled to WebAssembly, with the bindings next to it."""
    if v in _wasm: return _wasm[v]
    defs, rng, pmax = WASM[v]
    d = os.path.join(WORK, 'wasm-' + v)
    H = os.path.join(VERIF, 'harness', 'wasm')
    os.makedirs(os.path.join(d, 'inc', 'gnu'))
    open(os.path.join(d, 'inc', 'gnu', 'stubs-32.h'), 'w').close()
    L = os.path.join(REPO, 'lib')
    src = sorted(f for f in os.listdir(L) if f.endswith('.c')) + ['transform/kiss_fft.c'] + ['kissfft/kiss_fft%s.c' % x for x in ('', 'nd', 'ndr', 'r')] + ['image/%s.c' % x for x in ('pgm', 'pfm', 'y4m')]
    inc = ['-isystem', os.path.join(d, 'inc'), '-isystem', '/usr/include/x86_64-linux-gnu', '-isystem', '/usr/include'] + ['-I' + os.path.join(REPO, x) for x in ('include', 'lib', 'lib/kissfft')]
    def cc(f):
        o = os.path.join(d, f.replace('/', '_') + '.o')
        own = f == 'libc.c'
        sh(['/usr/bin/clang', '--target=wasm32', '-std=c99' if not own else '-std=gnu11', '-O2', '-w', '-ffunction-sections', '-fdata-sections', '-fvisibility=hidden', '-D__NO_CTYPE', '-DRESDET_EXPORT', '-DVERSION_SUFFIX="+wasm"']
           + (['-fno-builtin', '-ffreestanding'] if own else []) + defs + inc + ['-c', os.path.join(H if own else L, f), '-o', o], d, None, 'clang ' + f)
        return o
    with ThreadPoolExecutor(NPROC) as ex: objs = list(ex.map(cc, src + ['libc.c']))
    exp = [l.strip()[1:] for l in open(os.path.join(REPO, 'bindings', 'emscripten', 'exported_functions.txt')) if l.strip()]
    sh(['/usr/bin/wasm-ld', '--no-entry', '--gc-sections', '--allow-undefined', '-z', 'stack-size=262144'] + ['--export=' + x for x in exp] + objs + ['-o', os.path.join(d, 'libresdet.wasm')], d, None, 'wasm-ld')
    shutil.copy(os.path.join(H, 'libresdet.mjs'), d)
    sh(['node', os.path.join(H, 'build.mjs'), os.path.join(REPO, 'bindings', 'emscripten', 'resdet.mts'), os.path.join(d, 'resdet.mjs')], d, None, 'resdet.mts')
    _wasm[v] = d
    return d

class JsSuite(BindSuite):
    """Traces of calls on the JavaScript bindings."""
    def prepare(self):
        for v in sorted({j[0] for j in self.jobs.values()}): wasm(v)
    def config(self, v):
        return json.dumps({'range': WASM[v][1], 'pmax': WASM[v][2], 'readers': [], 'rnames': [], 'name': v, 'kiss': True})
    def execute(self, v, base):
        d = wasm(v)
        job = json.load(open(base + '.json'))
        todo, ev, out = job['traces'], {}, ''
        while todo:
            job['traces'] = todo
            with open(base + '.json', 'w') as f: f.write(re.sub(r'(-?Infinity|NaN)', r'"\1"', json.dumps(job)))
            try:
                r = subprocess.run(['node', '--expose-gc', os.path.join(VERIF, 'harness', 'jsdrive.mjs'), base + '.json', os.path.join(self.dir, 'images.bin'), base + '.out', os.path.join(d, 'resdet.mjs')],
                                   stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, cwd=self.dir, text=True, errors='replace', timeout=120)
                out, rc = r.stdout, r.returncode
            except subprocess.TimeoutExpired: out, rc = 'timeout', 124
            ev = self.recorded(base)
            left = [t for t in todo if t['t'] not in ev or ev[t['t']][-1]['op'] not in ('end', 'crash')]
            if not left: break
            if rc == 0 or len(left) == len(todo) and left[0]['t'] not in ev and rc != 124: raise CheckError('driver: exit %d %s' % (rc, out[-2000:]))
            # the process ended in one of them
            with open(base + '.out', 'a') as f: f.write('\n' + json.dumps({'t': left[0]['t'], 'op': 'crash', 'why': 'exit %d' % rc}) + '\n')
            ev = self.recorded(base)
            todo = left[1:]
        return ev, out

def par(r=None, thr=None, f=None, x=False, badr=False, badf=False, empty=False):
    """(the dictionary passed, what the specification is told of it)."""
    d, s = {}, {'k': 'dict', 'x': x, 'r': {'k': 'none', 'n': 0}, 'thr': {'k': 'none', 'hi': 0, 'lo': 0, 'ppb': 0, 'p': 0, 'q': 1}, 'f': {'k': 'none', 'n': 0}}
    if r is not None:
        d['range'] = r
        s['r'] = {'k': 'bad', 'n': 0} if badr else {'k': 'n', 'n': min(r, 2**31 - 1)}
    if thr is not None:      # the words of gen.thr_args
        b, p1, p, q = thr.split() if isinstance(thr, str) else thr
        b = int(b, 16)
        d['threshold'] = struct.unpack('<f', struct.pack('<I', b))[0]
        s['thr'] = {'k': 't', 'hi': b >> 16, 'lo': b & 0xffff, 'ppb': int(p1), 'p': int(p), 'q': int(q)}
    if f is not None:
        d['compression_filter'] = f
        s['f'] = {'k': 'bad', 'n': 0} if badf else {'k': 'n', 'n': f}
    if x: d['thresh'] = .5
    if not d and not empty: return None, {'k': 'none'}
    return d, s
import struct
