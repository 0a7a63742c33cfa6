"""Running the command line tools, and what they print as events for the specification."""
import errno, json, re, shlex, shutil, subprocess, os
from decimal import Decimal
from core import *
import gen

def opt(o, text, **kw):
    return dict(o=o, text=text, **kw)

def ppb(s, scale=10**9):
    return int((Decimal(s) * scale).to_integral_value())

ROW = re.compile(r'(?: {17}| *(\d+) \( *(\d+\.\d\d)%\)   )(?: *(\d+) \( *(\d+\.\d\d)%\))?')
def parse(out, readers):
    """Standard output of resdet."""
    e = {'form': 'other', 'lw': [], 'lh': [], 'qw': [], 'qh': [], 'best': [], 'given': [], 'notup': False, 'readers': []}
    if out == '':
        e['form'] = 'empty'; return e
    if re.fullmatch(r'\d+ \d+\n', out):
        e['form'] = 'best'; e['best'] = [int(x) for x in out.split()]; return e
    m = re.fullmatch(r'((?:\d+ )+)\n((?:\d+ )+)\n', out)
    if m:
        e['form'] = 'lists'; e['qw'], e['qh'] = ([int(x) for x in g.split()] for g in m.groups()); return e
    m = re.fullmatch(r'((?:\d+:-?\d+\.\d{6} )+)\n((?:\d+:-?\d+\.\d{6} )+)\n', out)
    if m:
        e['form'] = 'conf'; e['lw'], e['lh'] = ([[int(x.split(':')[0]), ppb(x.split(':')[1])] for x in g.split()] for g in m.groups()); return e
    if out.startswith('Usage: '):
        e['form'] = 'help' if all('   %-5s - ' % m in out for m in ('sign', 'mag', 'orig', 'zerox')) and ' -m ' in out else 'other'
        return e
    m = re.fullmatch(r'resdet version \S+\nlibresdet version \S+\nBuilt with image readers: (.*)\n', out)
    if m:
        e['form'] = 'version'; e['readers'] = m.group(1).split(', '); return e
    if out.endswith('\n') and all(re.fullmatch(r'[A-Za-z0-9]+', l) for l in out[:-1].split('\n')):
        e['form'] = 'readers'; e['readers'] = out[:-1].split('\n'); return e
    m = re.fullmatch(r'given: (\d+)x(\d+)\nbest guess: (\d+)x(\d+)( \(not upsampled\))?\n(?:all width        height\n((?:.*\n)+))?', out)
    if m:
        e['given'] = [int(m.group(1)), int(m.group(2))]; e['best'] = [int(m.group(3)), int(m.group(4))]; e['notup'] = bool(m.group(5))
        for l in (m.group(6) or '').split('\n')[:-1]:
            x = ROW.fullmatch(l)
            if not x or not (x.group(1) or x.group(3)): return e
            # a column may end before the other does, but not have gaps
            if x.group(1):
                if len(e['lw']) < len(e['lh']): return e
            elif len(e['lh']) < len(e['lw']): return e
            if x.group(1): e['lw'].append([int(x.group(1)), ppb(x.group(2), 10**7)])
            if x.group(3): e['lh'].append([int(x.group(3)), ppb(x.group(4), 10**7)])
        e['form'] = 'table'
    return e

def announced(err):
    """The frames that are announced on standard error, as ranges of consecutive numbers."""
    e = {'seen': [], 'past': []}
    for l in re.split('[\\r\\n]', err):
        m = re.search(r'frame (\d+)', l)
        if not m or l.startswith('Passed end'): continue
        q, n = e['past' if re.search('seek|skip', l, re.I) else 'seen'], int(m.group(1))
        if q and n == q[-1][1] + 1: q[-1][1] = n
        else: q.append([n, n])
    return e

ENV = dict(LC_ALL='C', MAGICK_THREAD_LIMIT='1', OMP_NUM_THREADS='1', ASAN_OPTIONS='detect_leaks=0:exitcode=99:allocator_may_return_null=1:max_allocation_size_mb=2000', UBSAN_OPTIONS='exitcode=98', AV_LOG_FORCE_NOCOLOR='1')

ERRNOS = [errno.ENOENT, errno.ENOTDIR, errno.ENAMETOOLONG, errno.ELOOP, errno.EISDIR]
class CliSuite(Suite):
    """Runs of the command line tools."""
    def __init__(self, name):
        super().__init__(name)
        self.jobs = {}
    def cli(self, variant, opts, src='file', fid=0, path=None, how='file', r=None, chunk=None):
        """opts: from opt(); how: file, stdinfile, stdinpipe."""
        tid = '%s%d' % (self.name, len(self.jobs))
        args = []
        for o in opts: args += o['text']
        if src != 'none':
            a = '-' if how.startswith('stdin') else path
            if r is not None and r.random() < .15 and not any(o['o'] in 'hV' for o in opts): args = [a] + args     # operands may come first
            else: args = args + ([] if r is None or r.random() < .9 or a == '-' else ['--']) + [a]
        self.jobs[tid] = ('cli', variant, opts, src, fid, path, how, args)
        return tid
    def imgread(self, variant, src, fid, path, writable=True, old=None):
        tid = '%s%d' % (self.name, len(self.jobs))
        self.jobs[tid] = ('imgread', variant, [], src, fid, path, 'file', writable, old)
        return tid
    def profile(self, variant, items, text, path=None):
        """items: what the dictionary says; text: the dictionary (or it is missing)."""
        tid = '%s%d' % (self.name, len(self.jobs))
        self.jobs[tid] = ('profile', variant, [], items, text, path)
        return tid
    def doprofile(self, tid):
        op, variant, _, items, text, path = self.jobs[tid]
        b = build(variant, tools=True, driver=False)
        if path is None and text is not None:
            path = os.path.join(self.dir, tid + '.txt')
            open(path, 'w').write(text)
        env = dict(os.environ, **ENV)
        if os.path.exists(os.path.join(b.dir, 'usage.so')): env.update(LD_PRELOAD=os.path.join(b.dir, 'usage.so'), USAGE_LOG=os.path.join(self.dir, tid + '.log'))
        cmd = [os.path.join(b.dir, 'profile')] + ([path] if path is not None else [])
        try:
            p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, stdin=subprocess.DEVNULL, env=env, cwd=self.dir, timeout=60)
            rc, out, err = p.returncode, p.stdout.decode('utf8', 'replace'), p.stderr
        except subprocess.TimeoutExpired:
            rc, out, err = -1000, '', b''
        e = {'op': op, 'items': [{k: v for k, v in i.items() if k != 'path'} for i in items], 'exit': rc, 'err': len(err) > 0, 'rep': [], 'totals': [], 'clock': []}
        if os.path.exists(env.get('USAGE_LOG', '')):
            e['clock'] = [[int(x), 1000 * int(y)] for x, y in (l.split() for l in open(env['USAGE_LOG']))]
            os.unlink(env['USAGE_LOG'])
        # the lines of each image, after its name
        def line(l):
            m = re.fullmatch(r'(\w+) +(\d+)\.(\d{6,9}) +\(\+(\d+) -(\d+)\)', l)
            return m and [m.group(1), int(m.group(4)), int(m.group(5)), int(m.group(2)), int(m.group(3).ljust(9, '0'))]
        ls = out.split('\n'); k = 0; e['form'] = 'empty' if out == '' else 'other'
        for i in items:
            if k >= len(ls) or ls[k] != i['path']: break
            k += 1; e['rep'].append([])
            while k < len(ls) and line(ls[k]): e['rep'][-1].append(line(ls[k])); k += 1
        if ls[k:k + 1] == ['totals'] and ls[-1] == '' and all(line(l) for l in ls[k + 1:-1]):
            e['form'] = 'profile'; e['totals'] = [line(l) for l in ls[k + 1:-1]]
        if e['form'] == 'other': e['stdout'] = out[:500]
        return tid, variant, [e], [' '.join(cmd), text or '']
    def visual(self, variant, cmdline, **kw):
        """cmdline: the arguments of visualize.sh.  kw: what they are, for the specification, and path, out and how many frames."""
        tid = '%s%d' % (self.name, len(self.jobs))
        self.jobs[tid] = ('visual', variant, [], cmdline, kw)
        return tid
    def dovisual(self, tid):
        op, variant, _, cmdline, kw = self.jobs[tid]
        kw = dict(kw)
        b = build(variant, tools=True, driver=False)
        d = os.path.join(self.dir, tid); bin = os.path.join(d, 'bin')
        os.makedirs(bin)
        for t in ('identify', 'spec', 'magick'): os.symlink(os.path.join(VERIF, 'harness', 'standin', t), os.path.join(bin, t))
        os.symlink(os.path.join(b.dir, 'resdet'), os.path.join(bin, 'resdet'))
        if kw['missing']: os.unlink(os.path.join(bin, kw['missing']))
        path, frames = kw.pop('path'), kw.pop('frames')
        json.dump({path: [kw['w'], kw['hh'], frames]} if kw['w'] else {}, open(os.path.join(d, 'sizes'), 'w'))
        out = os.path.join(d, kw.pop('out'))
        old = kw.pop('old')
        if old: open(out, 'w').write('old')
        env = dict(os.environ, **ENV, PATH=bin + ':/usr/bin:/bin', STANDIN_SIZES=os.path.join(d, 'sizes'), TMPDIR=d)
        env.pop('BASH_ENV', None)
        cmd = ['bash', os.path.join(REPO, 'src', 'visualize.sh')] + [out if x is None else x for x in cmdline]
        try:
            p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, stdin=subprocess.DEVNULL, env=env, cwd=d, timeout=60)
            rc, so, err = p.returncode, p.stdout.decode('utf8', 'replace'), p.stderr
        except subprocess.TimeoutExpired:
            rc, so, err = -1000, '', b''
        e = dict(kw, op=op, nullpath=False, exit=rc, err=len(err) > 0, drawn=False, base={'words': [], 'image': []}, lines=[], strokes=[],
                 help=so.startswith('usage: visualize.sh') and all(re.search(r'^ *-%s\b' % o, so, re.M) for o in 'lctrs'))
        B = lambda t: list((t or '').encode())
        got = open(out).read() if os.path.isfile(out) else ''
        if got not in ('', 'old'):
            try:
                x = json.loads(got)
                e.update(drawn=True, lines=[l['at'] for l in x['lines']], strokes=[[B(l['stroke']), B(l['width'])] for l in x['lines']],
                         base={'words': [B(t) for t in x['base']['words']], 'image': B(os.path.basename(x['base']['spectrum'])) if x['base']['spectrum'] == path else [0]})
            except (ValueError, KeyError): e['drawn'] = True
        shutil.rmtree(d)
        return tid, variant, [e], [' '.join(map(shlex.quote, cmd))]
    def execute(self, tid):
        if self.jobs[tid][0] == 'visual': return self.dovisual(tid)
        if self.jobs[tid][0] == 'profile': return self.doprofile(tid)
        op, variant, opts, src, fid, path, how, args = self.jobs[tid][:8]
        b = build(variant, tools=True, driver=False)
        env = dict(os.environ, **ENV)
        if op == 'imgread':
            o = os.path.join(self.dir, tid + ('.pfm' if args else '/nonexistent/x.pfm'))
            cmd = [os.path.join(b.dir, 'imgread'), path, o]
            old = self.jobs[tid][8]
            if old is not None: open(o, 'wb').write(old)
        else:
            cmd = [os.path.join(b.dir, 'resdet')] + args
        data = None
        fd = subprocess.DEVNULL
        if how == 'stdinfile': fd = open(path, 'rb')
        elif how == 'stdinpipe': data = open(path, 'rb').read(); fd = None
        try:
            kw = {'input': data} if data is not None else {'stdin': fd}
            try:
                p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=env, cwd=self.dir, timeout=60, **kw)
                rc, out, err = p.returncode, p.stdout.decode('utf8', 'replace'), p.stderr
            except subprocess.TimeoutExpired:
                rc, out, err = -1000, '', b''
        finally:
            if how == 'stdinfile': fd.close()
        name = '-' if how.startswith('stdin') else os.path.basename(path or '')
        e = {'op': op, 'src': src, 'file': fid, 'nullpath': False, 'pb': list(name.encode()), 'exit': rc, 'err': len(err) > 0}
        # which errors are told of, and the system's, if there is no such file
        text = err.decode('utf8', 'replace')
        e['says'] = [k + 1 for k, m in enumerate(b.messages) if m and m in text] + [-k for k in ERRNOS if os.strerror(k) in text]
        e['sys'] = 0
        if path and not how.startswith('stdin'):
            try: os.stat(path)
            except OSError as x: e['sys'] = x.errno
        if op == 'imgread':
            e['writable'] = args
            out = open(o, 'rb').read() if args and os.path.exists(o) else b''
            if rc == 1 and out == old: out = b''        # left alone
            e['out'] = list(out)
            if args and os.path.exists(o): os.unlink(o)
        else:
            e['opts'] = [{k: v for k, v in x.items() if k != 'text'} for x in opts]
            e.update(parse(out, b.readers))
            e.update(announced(err.decode('utf8', 'replace')))
            if e['form'] == 'other': e['stdout'] = out[:500]
        return tid, variant, [e], [' '.join(map(str, cmd)) + ('' if how == 'file' else ' < ' + path)]
    def runjobs(self):
        builds(sorted({j[1] for j in self.jobs.values()}), tools=True, driver=False)
        self.events = {}
        with ThreadPoolExecutor(NPROC) as ex:
            for tid, v, ev, lines in ex.map(self.execute, list(self.jobs)):
                self.events[tid] = (v, ev, lines)
        return self
    def redo(self, ids):
        return {t: (v, ev, l) for t, v, ev, l in (self.execute(t) for t in ids)}
