"""Building the library, running drivers on it, and validating what they record with TLC."""
import os, sys, re, json, subprocess, tempfile, shutil, time, atexit, signal, threading
from concurrent.futures import ThreadPoolExecutor
import numpy as np

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
SPEC = os.path.join(VERIF, 'spec')
JARS = '/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar'
SEED = int(os.environ.get('VERIF_SEED', '1') or 1)
TIER = os.environ.get('VERIF_TIER', 'quick') or 'quick'
THOROUGH = TIER == 'thorough'
NPROC = os.cpu_count() or 8

WORK = tempfile.mkdtemp(prefix='resdet-verif-', dir='/tmp')
def _cleanup(pid=os.getpid()):
    if os.getpid() == pid:
        shutil.rmtree(WORK, ignore_errors=True)
atexit.register(_cleanup)
signal.signal(signal.SIGTERM, lambda *a: sys.exit(2))

class CheckError(Exception):
    pass

# --------------------------------------------------------------------------- builds
BASECFLAGS = '-march=x86-64 -mtune=generic -Wno-error'
SAN = '-fsanitize=address,undefined -fno-sanitize-recover=undefined -fno-omit-frame-pointer -g -O1'
ALLREADERS = ['PGM', 'PFM', 'Y4M', 'libjpeg', 'libpng', 'FFmpeg', 'MagickWand']
VARIANTS = {
    # name: (configure arguments, CFLAGS, LDFLAGS, readers, default range, pixel limit)
    'fftw':   ([], '', '', ALLREADERS, 12, 0),
    'kiss':   (['--disable-fftw'], '', '', ALLREADERS, 12, 0),
    'asan':   ([], SAN, '-fsanitize=address,undefined', ALLREADERS, 12, 0),
    'kasan':  (['--disable-everything'], SAN, '-fsanitize=address,undefined', ALLREADERS[:3], 12, 0),
    'tsan':   (['--disable-everything'], '-fsanitize=thread -g -O1', '-fsanitize=thread', ALLREADERS[:3], 12, 0),
    'bare':   (['--disable-everything'], '', '', ALLREADERS[:3], 12, 0),
    'img':    (['--disable-MagickWand', '--disable-ffmpeg'], '', '', ALLREADERS[:5], 12, 0),
    'noff':   (['--disable-ffmpeg'], '', '', ALLREADERS[:5] + ['MagickWand'], 12, 0),
    'nomw':   (['--disable-MagickWand'], '', '', ALLREADERS[:6], 12, 0),
    'omit':   (['--omit-pgm-reader', '--disable-libjpeg', '--disable-MagickWand', '--disable-ffmpeg'], '', '', ['PFM', 'Y4M', 'libpng'], 12, 0),
    'pmax':   (['--pixel-max=48'], '', '', ALLREADERS, 12, 48),
    'pmaxk':  (['--pixel-max=96', '--disable-fftw', '--disable-MagickWand', '--disable-ffmpeg'], SAN, '-fsanitize=address,undefined', ALLREADERS[:5], 12, 96),
    'pmax32': (['--pixel-max=4000000000'], '', '', ALLREADERS, 12, 4000000000),
    'cD':     (['--coeff-precision=D'], '', '', ALLREADERS, 12, 0),
    'cL':     (['--coeff-precision=L', '--inter-precision=L'], '', '', ALLREADERS, 12, 0),
    'iF':     (['--inter-precision=F'], '', '', ALLREADERS, 12, 0),
    'kD':     (['--disable-fftw', '--coeff-precision=D'], '', '', ALLREADERS, 12, 0),
    'kFF':    (['--disable-fftw', '--inter-precision=F'], '', '', ALLREADERS, 12, 0),
    'range3': (['--default-range=3'], '', '', ALLREADERS, 3, 0),
    'nosb':   (['--no-builtin-signbit'], '', '', ALLREADERS, 12, 0),
}
WRAP = ('malloc calloc realloc reallocarray free strdup strndup posix_memalign aligned_alloc memalign fopen '
        'fftwf_alloc_real fftw_alloc_real fftwl_alloc_real fftwf_malloc fftw_malloc fftwl_malloc fftwf_free fftw_free fftwl_free '
        'fftwf_plan_r2r_2d fftw_plan_r2r_2d fftwl_plan_r2r_2d fftwf_destroy_plan fftw_destroy_plan fftwl_destroy_plan '
        'png_create_read_struct png_create_info_struct avcodec_alloc_context3 sws_alloc_context av_frame_alloc av_packet_alloc').split()

class Build:
    def __init__(self, name):
        self.name = name
        self.args, self.cflags, self.ldflags, self.readers, self.range, self.pmax = VARIANTS[name]
        self.dir = os.path.join(WORK, 'build-' + name)
        self.driver = None
    def config(self):
        names = {'PGM': 'PGM'}
        return {'range': self.range, 'pmax': self.pmax if self.pmax < 2**30 else 0, 'readers': self.readers,
                'rnames': [list(r.encode()) for r in self.readers], 'name': self.name,
                'kiss': '--disable-fftw' in self.args or '--disable-everything' in self.args}

_builds = {}
_block = threading.Lock()

def sh(cmd, cwd, env, what):
    r = subprocess.run(cmd, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace')
    if r.returncode:
        raise CheckError('%s failed:\n%s' % (what, r.stdout[-3000:]))
    return r.stdout

def configmak(d):
    m = {}
    for l in open(os.path.join(d, 'config.mak')):
        if '=' in l:
            k, v = l.rstrip('\n').split('=', 1)
            m[k] = v
    return m

def build(name, tools=False, driver=True):
    """Builds a configuration of /repo's working tree in a scratch directory."""
    with _block:
        if name in _builds:
            b = _builds[name]
        else:
            b = _builds[name] = Build(name)
            b.lock = threading.Lock()
            b.done = set()
    with b.lock:
        env = dict(os.environ, CC='gcc', CFLAGS=BASECFLAGS + ' ' + b.cflags, LDFLAGS=b.ldflags, LC_ALL='C.UTF-8')
        if 'lib' not in b.done:
            os.makedirs(b.dir)
            for x in ('lib', 'include', 'src', 'bindings', 'configure', 'Makefile', 'doc'):
                p = os.path.join(REPO, x)
                if os.path.isdir(p):
                    shutil.copytree(p, os.path.join(b.dir, x), symlinks=True, ignore=shutil.ignore_patterns('*.o', '*.d', '*.a', '*.so', 'node_modules', '__pycache__'))
                elif os.path.exists(p):
                    shutil.copy2(p, os.path.join(b.dir, x))
            env2 = dict(env, GIT_DIR='/nonexistent')
            sh(['bash', './configure', '--enable-shared'] + b.args, b.dir, env2, 'configure ' + name)
            sh(['make', '-j8', 'lib'], b.dir, env, 'make ' + name)
            b.mak = configmak(b.dir)
            b.done.add('lib')
        if tools and 'tools' not in b.done:
            sh(['make', '-j8', 'resdet', 'imgread', 'profile'], b.dir, env, 'make tools ' + name)
            if 'sanitize' not in b.cflags: sh(['gcc', '-shared', '-fPIC', '-o', os.path.join(b.dir, 'usage.so'), os.path.join(VERIF, 'harness', 'usage.c')], b.dir, env, 'usage.so')
            sh(['gcc'] + b.cflags.split() + ['-I' + os.path.join(b.dir, 'include'), '-o', os.path.join(b.dir, 'messages'), os.path.join(VERIF, 'harness', 'messages.c'), os.path.join(b.dir, 'lib', 'libresdet.a')]
               + b.ldflags.split() + b.mak.get('LDLIBS', '').split() + ['-lm', '-lpthread'], b.dir, env, 'messages')
            b.messages = sh([os.path.join(b.dir, 'messages')], b.dir, env, 'messages').split('\n')[:-1]
            b.done.add('tools')
        if driver and 'driver' not in b.done:
            b.driver = os.path.join(b.dir, 'rdrive')
            cmd = ['gcc', '-O1', '-g', '-std=gnu11', '-Wno-builtin-declaration-mismatch'] + b.cflags.split() + ['-I' + os.path.join(b.dir, 'include'), '-o', b.driver, os.path.join(VERIF, 'harness', 'rdrive.c'),
                   os.path.join(b.dir, 'lib', 'libresdet.a')] + b.ldflags.split() + b.mak.get('LDLIBS', '').split() + ['-lm', '-lpthread'] + ['-Wl,' + ','.join('--wrap=' + w for w in WRAP)]
            sh(cmd, b.dir, env, 'driver ' + name)
            b.done.add('driver')
    return b

def builds(names, **kw):
    with ThreadPoolExecutor(4) as ex:
        return dict(zip(names, ex.map(lambda n: build(n, **kw), names)))

# --------------------------------------------------------------------------- suites of traces
def dimcode(s):
    n = int(s)
    return n if n < 2**30 else -(n.bit_length() - 1)

class Suite:
    """Images, files and scripts of one run, and the traces recorded from executing them."""
    def __init__(self, name='s'):
        self.name = name
        self.dir = tempfile.mkdtemp(prefix='suite-', dir=WORK)
        self.images = []      # dicts for the specification
        self.pix = []         # float32 arrays
        self.files = []
        self.paths = {}       # path -> file number
        self.traces = []      # (id, variant, lines)
        self.events = {}      # (variant) -> {id: [events]}
        self.ids = set()
        self.lsan = 0

    # images are numbered from 1
    def image(self, pix, c=None, tol=0, bad=False):
        pix = np.ascontiguousarray(pix, dtype=np.float32)
        h, w = pix.shape
        self.pix.append(pix)
        self.images.append({'w': w, 'h': h, 'c': [] if c is None else [[int(v) for v in row] for row in c], 'tol': int(tol), 'bad': bool(bad)})
        return len(self.images)

    def file(self, data, name, fi=(), x=None, rep=1, head=0, parts=None, size=None):
        """A file with the given bytes; fi: images (numbers) of its frames; x: claim on what other readers read;
        rep: how often everything after the first head bytes is repeated; parts: (offset, bytes) to be written as
        well, with zeros before them and up to size that take no space."""
        k = len(self.files) + 1
        path = os.path.join(self.dir, '%d' % k)
        os.makedirs(path)
        path = os.path.join(path, name)
        with open(path, 'wb') as f:
            f.write(data[:head])
            f.write(data[head:] * rep)
            for at, d in parts or ():
                f.seek(at); f.write(d)
            if size is not None: f.truncate(size)
        x = x or {}
        self.files.append({'b': list(data) if x.get('readers') is None or len(data) < 4000 else list(data[:16]), 'fi': list(fi), 'xr': x.get('readers', []), 'xw': x.get('w', 0), 'xh': x.get('h', 0),
                           'xd': x.get('d', 255), 'xt': x.get('t', 0), 'xf': x.get('f', []), 'xe': x.get('e', 'eof'), 'xn': bool(x.get('near', False)), 'rep': rep})
        self.paths[path] = k
        return k, path

    def trace(self, variant, lines, tid=None):
        tid = tid or '%s%d' % (self.name, len(self.traces))
        assert tid not in self.ids, tid
        self.ids.add(tid)
        self.traces.append((tid, variant, list(lines)))
        return tid

    # ---- execution
    def run(self, timeout=60):
        imgs = os.path.join(self.dir, 'images.bin')
        hdr = []
        off = 0
        with open(imgs, 'wb') as f:
            for n, p in enumerate(self.pix):
                f.write(p.tobytes())
                hdr.append('image %d %d %d' % (n + 1, off, p.size))
                off += p.size
        byv = {}
        for t in self.traces:
            byv.setdefault(t[1], []).append(t)
        builds(list(byv))
        jobs = []
        for v, ts in byv.items():
            # shards of consecutive traces
            n = max(1, min(NPROC, len(ts) // 4))
            for k in range(n):
                jobs.append((v, k, ts[k::n]))
        def job(j):
            v, k, ts = j
            b = build(v)
            base = os.path.join(self.dir, '%s-%d' % (v, k))
            with open(base + '.script', 'w') as f:
                f.write('\n'.join(hdr) + '\n')
                for tid, _, lines in ts:
                    f.write('T %s\n%s\nE\n' % (tid, '\n'.join(lines)))
            open(base + '.out', 'w').close()
            env = dict(os.environ, RDRIVE_TIMEOUT=str(timeout), ASAN_OPTIONS='detect_leaks=%d:' % self.lsan + 'leak_check_at_exit=0:allocator_may_return_null=1:max_allocation_size_mb=2000:abort_on_error=0:exitcode=99:detect_stack_use_after_return=1',
                       UBSAN_OPTIONS='print_stacktrace=1:exitcode=98', TSAN_OPTIONS='exitcode=97:halt_on_error=1', MAGICK_THREAD_LIMIT='1', OMP_NUM_THREADS='1',
                       AV_LOG_FORCE_NOCOLOR='1')
            with open(base + '.err', 'w') as err:
                r = subprocess.run([b.driver, base + '.script', imgs, base + '.out'], stdin=subprocess.DEVNULL, stdout=err, stderr=err, env=env, cwd=self.dir)
            if r.returncode:
                raise CheckError('driver exited with %d: %s' % (r.returncode, open(base + '.err').read()[-2000:]))
            ev = {}
            for l in open(base + '.out', errors='replace'):
                if not l.strip():
                    continue
                try:
                    e = json.loads(l)
                except ValueError:
                    m = re.match(r'\{"t":"([^"]+)"', l)   # a line cut short by a crash
                    continue
                ev.setdefault(e.pop('t'), []).append(e)
            return ts, ev, open(base + '.err', errors='replace').read()
        self.events = {}
        self.errout = ''
        with ThreadPoolExecutor(NPROC) as ex:
            for ts, ev, err in ex.map(job, jobs):
                self.errout += err
                for tid, v, lines in ts:
                    if tid not in ev:
                        raise CheckError('trace %s is missing' % tid)
                    # a process that ended early, or whose own script was overwritten, is one the library broke
                    bad = [i for i, e in enumerate(ev[tid]) if e['op'] == 'badscript']
                    if bad:
                        ev[tid] = ev[tid][:bad[0]] + [{'op': 'crash', 'why': 'script overwritten: %s' % ev[tid][bad[0]].get('s')}]
                    elif ev[tid][-1]['op'] not in ('end', 'crash'):
                        ev[tid].append({'op': 'crash', 'why': 'ended early'})
                    # threads start with what was done before 'note fork'
                    pre = [j for j, l in enumerate(lines) if l == 'note fork'][:1]
                    pre = ev[tid][:pre[0]] if pre else []
                    for k in ev:
                        if k == tid or k.startswith(tid + '@'):
                            self.events[k] = (v, [self.project(e) for e in (pre if k != tid else []) + ev[k]], lines)
        return self

    def project(self, e):
        """From the driver's record to the event the specification speaks of."""
        e = dict(e)
        if 'ws' in e:
            e['w'] = dimcode(e.pop('ws')); e['hh'] = dimcode(e.pop('hs'))
        if 'path' in e:
            p = e.pop('path')
            e['nullpath'] = p == 'NULL'
            name = p
            if p.startswith('PIPE:'):
                name = '/dev/fd/9'
            elif p == 'EMPTY':
                name = ''
            e['pb'] = list(os.path.basename(name).encode())
            t = e.pop('type')
            e['hast'] = t != 'NULL'
            e['tb'] = [] if t in ('NULL', 'EMPTY') else list(t.encode())
        return e

    def addevents(self, variant, tid, events, lines=()):
        self.events[tid] = (variant, events, list(lines))

    def validate(self, **kw):
        return validate(self, **kw)

def lsan_works(variant='asan'):
    """Can LeakSanitizer look at memory here?"""
    s = Suite('lsan')
    s.lsan = 1
    s.trace(variant, ['leak', 'leakmake', 'leak'], 'x')
    s.run()
    return [e['n'] for e in s.events['x'][1] if e['op'] == 'leak'] == [0, 1]

# --------------------------------------------------------------------------- TLC
TLCOUT = {}
def tlc(module, cfg=None, workers=NPROC, env=None, timeout=800, heap='6g', extra=(), cwd=SPEC):
    """Runs TLC; returns (output, generated, distinct)."""
    meta = tempfile.mkdtemp(prefix='tlc-', dir=WORK)
    e = dict(os.environ)
    e.pop('JAVA_TOOL_OPTIONS', None)
    e.update(env or {})
    mod = os.path.join(cwd, module + '.tla')
    cmd = ['java', '-XX:+UseParallelGC', '-Djava.io.tmpdir=' + meta, '-Xmx' + heap, '-Xss64m', '-DTLA-Library=' + SPEC, '-cp', JARS, 'tlc2.TLC', '-noGenerateSpecTE', '-metadir', meta, '-workers', str(workers),
           '-config', cfg or os.path.join(cwd, module + '.cfg')] + list(extra) + [mod]
    try:
        r = subprocess.run(cmd, cwd=meta, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout, errors='replace')
    except subprocess.TimeoutExpired:
        raise CheckError('TLC timed out on ' + module)
    finally:
        shutil.rmtree(meta, ignore_errors=True)
    m = re.findall(r'([\d,]+) states generated, ([\d,]+) distinct states found', r.stdout)
    gen, dist = (int(x.replace(',', '')) for x in m[-1]) if m else (0, 0)
    return r.returncode, r.stdout, gen, dist

def model(module, cfg=None, workers=NPROC, timeout=800, **kw):
    """Checks a model exhaustively; an error of the model is an error of the check."""
    rc, out, gen, dist = tlc(module, cfg, workers=workers, cwd=os.path.join(SPEC, 'mc'), timeout=timeout, **kw)
    if rc != 0 or 'Model checking completed. No error' not in out:
        raise CheckError('model %s: TLC exit %d\n%s' % (module, rc, out[-3000:]))
    return out, gen, dist

class Result:
    def __init__(self):
        self.rejects = []      # (trace id, variant, index, event, lines)
        self.deviations = set()
        self.states = self.transitions = self.traces = self.events = 0

def validate_events(images, files, evs, label='t', timeout=800):
    """evs: {id: (variant, events, lines)}.  Returns a Result."""
    res = Result()
    ids = sorted(evs)
    if not ids:
        return res
    variants = sorted({evs[t][0] for t in ids})
    from_cfg = []
    for v in variants:
        from_cfg.append(Build(v).config() if isinstance(v, str) and v in VARIANTS else json.loads(v))
    data = {'images': images, 'files': files, 'configs': from_cfg,
            'traces': [{'id': t, 'c': variants.index(evs[t][0]) + 1, 'ev': evs[t][1]} for t in ids]}
    fn = os.path.join(WORK, 'trace-%s-%d.json' % (label, time.time_ns()))
    with open(fn, 'w') as f:
        json.dump(data, f)
    try:
        rc, out, gen, dist = tlc('Trace', env={'TRACE_FILE': fn}, timeout=timeout)
    finally:
        os.unlink(fn)
    if rc != 0 or 'Model checking completed. No error' not in out:
        raise CheckError('trace validation: TLC exit %d\n%s' % (rc, out[-4000:]))
    rej = {}
    for m in re.finditer(r'<<"REJECT", "([^"]+)", (\d+)>>', out):
        rej[m.group(1)] = int(m.group(2))
    for m in re.finditer(r'<<"DEVIATION", "([^"]+)", ([^>]*)>>', out):
        res.deviations.add((m.group(1), m.group(2)))
    # one state per consumed event and one initial state per trace; anything else means that events were not checked
    want = sum((rej[t] + 1) if t in rej else len(evs[t][1]) + 1 for t in ids)
    if dist != want:
        raise CheckError('trace validation visited %d states, expected %d\n%s' % (dist, want, out[-2000:]))
    res.states, res.transitions, res.traces = dist, dist - len(ids), len(ids)
    res.events = sum(len(evs[t][1]) for t in ids)
    for t, k in rej.items():
        res.rejects.append((t, evs[t][0], k, evs[t][1][k - 1], evs[t][2]))
    return res

def validate(suite, **kw):
    return validate_events(suite.images, suite.files, suite.events, label=suite.name, **kw)
