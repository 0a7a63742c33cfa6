"""Executes scripts of calls on the Python bindings and records them.  pydrive.py JOBS IMAGES OUT
Run by the Python that has NumPy and Pillow, with the bindings on PYTHONPATH."""
import sys, os, json, struct, array, ctypes, signal, pathlib, io, warnings
import numpy as np
import PIL.Image
import resdet, resdet_numpy, resdet_PIL

class Spaced(os.PathLike):
    def __init__(self, p): self.p = p
    def __fspath__(self): return self.p
    def __str__(self): return 'not the path'

def fname(p, kind):
    if kind == 'Path': return pathlib.Path(p)
    if kind == 'DirEntry': return next(d for d in os.scandir(os.path.dirname(p)) if d.path == p)
    if kind == 'custom': return Spaced(p)
    return p

def code(x):
    """The library's error an exception stands for."""
    if isinstance(x, MemoryError): return 1
    for k, n in (('InternalError', 2), ('InvalidImageError', 3), ('UnsupportedFormatError', 4), ('ImageTooBigErrror', 5), ('ParameterError', 6), ('NoImagesError', 7)):
        if type(x) is getattr(resdet, k): return n
    if isinstance(x, OSError): return -(x.errno or 4001)
    if isinstance(x, IndexError): return 101
    if type(x) is Exception: return 100
    return 102

def bits(v):
    b, = struct.unpack('<I', struct.pack('<f', v))
    return [b >> 16, b & 0xffff]
def ppb(v): return int(round(float(v) * 1e9))
def lists(e, res):
    if sorted(res) != ['heights', 'widths']: raise TypeError('result')
    e['lw'] = [[r.index, ppb(r.confidence)] for r in res['widths']]
    e['lh'] = [[r.index, ppb(r.confidence)] for r in res['heights']]

class Trace:
    def __init__(self, t, imgs, offs, out):
        self.t, self.imgs, self.offs, self.out = t, imgs, offs, out
        self.an, self.im, self.buf, self.path = {}, {}, {}, {}
        self.keep = []
    def emit(self, e):
        self.out.write(json.dumps(dict(t=self.t['t'], **e)) + '\n'); self.out.flush()
    def pix(self, n):
        off, w, h = self.offs[str(n)]
        return self.imgs[off:off + w * h].reshape(h, w)

    # ---- image data in the forms the bindings accept
    def data(self, kind, imgs, w, h):
        """(positional arguments, does the type know its size?)"""
        if kind == 'none': return None, False
        fr = [self.pix(n) for n in imgs]
        flat = np.concatenate([f.ravel() for f in fr]) if fr else np.zeros(0, np.float32)
        if kind == 'list': return [float(x) for x in flat], False
        if kind == 'array': return array.array('f', flat.tolist()), False
        if kind in ('ptr', 'carray'):
            a = (ctypes.c_float * max(1, len(flat)))(*flat.tolist())
            self.keep.append(a)
            return (a if kind == 'carray' else ctypes.cast(a, ctypes.POINTER(ctypes.c_float))), False
        if kind == 'buffer':
            b = resdet.ImageBuffer.with_dimensions(w, h, len(fr)) if len(fr) != 1 or w % 2 else resdet.ImageBuffer.with_dimensions(w, h)
            for k, v in enumerate(flat.tolist()): b.data[k] = v
            return b, True
        if kind.startswith('nd:'):
            a = fr[0] if len(fr) == 1 and kind[-1] != '3' else np.stack(fr, -1)
            k = kind[3:].rstrip('3')
            if k == 'C': a = np.ascontiguousarray(a)
            elif k == 'F': a = np.asfortranarray(a)
            elif k == 'strided':
                b = np.full(tuple(2 * x + 1 for x in a.shape), 7e9, np.float32); v = b[tuple(slice(0, 2 * x, 2) for x in a.shape)]; v[...] = a; a = v
            elif k == 'neg': a = a[::-1, ::-1].copy()[::-1, ::-1]
            elif k == 'be': a = a.astype('>f4')
            elif k == 'ro': a = a.copy(); a.flags.writeable = False
            elif k == 'T': a = np.ascontiguousarray(a.T).T
            else: a = a.astype(k)
            self.keep.append(a)
            return a, True
        if kind.startswith('pil:'):
            k = kind[4:]
            if k.startswith('tiff'):
                ims = [PIL.Image.fromarray(np.ascontiguousarray(f), 'F') for f in fr]
                skip = int(k[4:] or 0)       # frames before the current one
                ims = [PIL.Image.fromarray(np.ascontiguousarray(fr[0][::-1]) + 1, 'F')] * skip + ims
                if self.other is not None: ims[skip + self.other[0]] = PIL.Image.fromarray(np.full(self.other[1:], .25, np.float32) + np.arange(self.other[2], dtype=np.float32) / 100, 'F')
                b = io.BytesIO(); ims[0].save(b, 'TIFF', save_all=True, append_images=ims[1:]); b.seek(0)
                im = PIL.Image.open(b)
                im.seek(skip)
                return im, True
            if k == 'F': return PIL.Image.fromarray(np.ascontiguousarray(fr[0]), 'F'), True
            if k == 'L': return PIL.Image.fromarray(fr[0].astype(np.uint8)), True
            if k == '1': return PIL.Image.fromarray(fr[0] > 0).convert('1'), True
            if k in ('RGB', 'RGBA', 'LA', 'P'): return PIL.Image.fromarray(fr[0].astype(np.uint8)).convert(k), True
            if k == 'I;16': return PIL.Image.fromarray(fr[0].astype(np.uint16)), True
            if k == 'pages':         # of different modes
                b = io.BytesIO(); ims = [PIL.Image.fromarray(f.astype(np.uint8)).convert(['RGB', 'L', 'RGBA', 'LA'][x % 4]) for x, f in enumerate(fr)]
                ims[0].save(b, 'TIFF', save_all=True, append_images=ims[1:]); b.seek(0)
                return PIL.Image.open(b), True
            if k == 'I': return PIL.Image.fromarray(fr[0].astype(np.int32)), True
        raise ValueError(kind)

    def params(self, o):
        kw = {}
        if o.get('m'): kw['method'] = resdet.Method.get(o['m'])
        if o.get('dict') is not None: kw['parameters'] = o['dict']
        return kw

    other = None
    def run(self):
        for o in self.t['ops']:
            e = {k: v for k, v in o.items() if k not in ('kind', 'dict', 'fkind', 'cls', 'how', 'reuse', 'other')}
            e['ret'] = 0
            try:
                getattr(self, 'op_' + o['op'])(o, e)
            except Exception as x:
                c = code(x)
                e['ret'] = c; e['why'] = '%s: %s' % (type(x).__name__, x)
                if e['op'] in ('read', 'seek'): e['err'], e['ret'] = c, False
            self.emit(e)
        self.emit({'op': 'end'})

    # ---- detection
    def op_bdetect(self, o, e):
        self.other = o.get('other')      # a page of another size
        d, sized = self.data(o['kind'], o['imgs'], o['w'], o['hh'])
        kw = self.params(o)
        if o.get('shape'): e['w'], e['hh'] = o['w'], o['hh']
        f = {'n': resdet_numpy.resdetect, 'p': resdet_PIL.resdetect}.get(o['kind'][0], resdet.resdetect) if o['kind'][:3] in ('nd:', 'pil') else resdet.resdetect
        if sized:
            at = d.tell() if isinstance(d, PIL.Image.Image) else 0
            r = f(d, **kw)
            if isinstance(d, PIL.Image.Image) and d.tell() != at: raise TypeError('position of the Pillow image')
        else: r = f(d, o['n'], o['w'], o['hh'], **kw)
        lists(e, r)
    def op_bcreate(self, o, e):
        a = {'numpy': resdet_numpy.Analysis, 'pil': resdet_PIL.Analysis}.get(o.get('cls'), resdet.Analysis)(o['w'], o['hh'], **self.params(o))
        if o.get('how') == 'with': a.__enter__()
        self.an[o['h']] = a
    def op_banalyze(self, o, e):
        a = self.an[o['h']]
        if o['img'] == 0: return a.analyze_image(None)
        off, w, h = self.offs[str(o['img'])]
        d, _ = self.data(o['kind'], [o['img']], w, h)
        a.analyze_image(d)
    def op_bresults(self, o, e): lists(e, self.an[o['h']].analysis_results())
    def op_bdestroy(self, o, e):
        a = self.an.pop(o['h'])
        if o.get('how') == 'with': a.__exit__(None, None, None)
        elif o.get('how') == 'method': a.destroy_analysis()
        del a
    def op_bdfile(self, o, e):
        kw = self.params(o)
        if o['type'] != 'NULL': kw['type'] = o['type']
        lists(e, resdet.resdetect_file(fname(o['path'], o.get('fkind')), **kw))

    # ---- images
    def op_open(self, o, e):
        cls = {'numpy': resdet_numpy.Image, 'pil': resdet_PIL.Image}.get(o['cls'], resdet.Image)
        kw = {}
        if o['op'] == 'openr': kw['image_reader'] = o['type']
        elif o['type'] != 'NULL': kw['type'] = o['type']
        b = None
        e.update(nf=0, nx=0, ok=False, buf='null', w=0, hh=0)
        if o['cls'] == 'resdet':
            if o['fl'] & 1:
                b = kw['buffer'] = resdet.ImageBuffer.with_dimensions(*o['reuse']) if o.get('reuse') else resdet.ImageBuffer()
                b.close()
        try:
            im = cls(fname(o['path'], o.get('fkind')), **kw)
        except Exception:
            if b and b.data: e['buf'] = 'junk'
            raise
        if o['cls'] != 'resdet': b = im.buffer
        e.update(ok=True, w=im.width, hh=im.height, buf='ok' if b is not None and b.data else 'null')
        if b is not None and (b.width, b.height, b.nimages) != (im.width, im.height, 1): e['w'] = -5
        if o.get('how') == 'with' and im.__enter__() is not im: e['w'] = -5
        self.im[o['h']], self.buf[o['h']] = im, b
        self.path[o['h']] = os.path.realpath(o['path'])
    op_openr = op_open
    def op_read(self, o, e):
        if o['h'] not in self.im: e['op'] = 'note'; return
        im, b = self.im[o['h']], self.buf[o['h']]
        how = o['how']
        e.update(nf=0, nx=0, we=True, nobuf=False, guard=True, err=0, ret=False)
        w, h = im.width, im.height
        if how in ('buf', 'flat'):
            if b is None or o.get('own'): b = resdet.ImageBuffer.with_dimensions(w, h)
            if o.get('closed'): b.close(); e['nobuf'] = True
            r = im.read_image_frame(b)
            if r not in (True, False): raise TypeError('read')
            e['ret'] = r
            if r: g = (lambda y, x: b[y, x]) if how == 'buf' else (lambda y, x: b[y * w + x])
        elif how in ('nd', 'pil', 'iter'):
            if how == 'iter':
                try: r = next(im)
                except StopIteration: r = None
            elif how == 'nd': r = im.read_image_frame_as_ndarray()
            else: r = im.read_image_frame_as_pil_image()
            e['ret'] = r is not None
            if r is not None:
                if isinstance(r, PIL.Image.Image):
                    if r.size != (w, h) or r.mode != 'F' or not isinstance(im, resdet_PIL.Image): raise TypeError('shape')
                    g = lambda y, x: r.getpixel((x, y))
                else:
                    if r.shape != (h, w) or r.dtype != np.float32: raise TypeError('shape')
                    g = lambda y, x: r[y][x]
                self.keep.append((r, r.tobytes() if isinstance(r, np.ndarray) else None))
        if e['ret']: e['px'] = [v for y in range(h) for x in range(w) for v in bits(g(y, x))]
        # frames given out earlier stay as they were
        for r, b0 in [k for k in self.keep if isinstance(k, tuple) and k[1] is not None]:
            if r.tobytes() != b0: raise TypeError('an earlier frame changed')
    def op_seek(self, o, e):
        if o['h'] not in self.im: e['op'] = 'note'; return
        prog = []
        e.update(nf=0, nx=0, we=True, err=0, prog=prog, ret=False)
        r = self.im[o['h']].seek_frame(o['n'], prog.append) if o['cb'] else self.im[o['h']].seek_frame(o['n'])
        if len(prog) > 4096: e.update(progn=len(prog), progseq=prog == list(range(1, len(prog) + 1)), prog=[])
        if r not in (True, False): raise TypeError('seek')
        e['ret'] = r
    def op_close(self, o, e):
        if o['h'] not in self.im: e['h'] = -1; return
        im = self.im.pop(o['h']); b = self.buf.pop(o['h']); path = self.path.pop(o['h'])
        if o.get('how') == 'with': im.__exit__(None, None, None)
        elif o.get('how') == 'method': im.close_image()
        if o.get('how') in ('with', 'method'):      # is the file still open, although nothing else uses it?
            def to(n):
                try: return os.readlink('/proc/self/fd/' + n)
                except OSError: return ''
            e['held'] = path not in self.path.values() and any(to(n) == path for n in os.listdir('/proc/self/fd'))
        del im
        if b is not None and o.get('how') == 'with':
            with b: pass
    def op_readimg(self, o, e):
        e.update(nf=0, nx=0, im='null')
        kw = {} if o['type'] == 'NULL' else {'type': o['type']}
        b = resdet.read_image(fname(o['path'], o.get('fkind')), **kw)
        e.update(im='ok' if b.data or not b.nimages else 'null', fits=True, n=b.nimages, w=b.width, hh=b.height)
        e['px'] = [v for n in range(b.nimages) for y in range(b.height) for x in range(b.width) for v in bits(b[n, y, x])]
        self.last = b
    def op_bindex(self, o, e):
        if not o.get('again'): self.last = resdet.read_image(o['path'])
        v = self.last[o['ix'][0] if len(o['ix']) == 1 else tuple(o['ix'])]
        e['v'] = bits(v)
    def op_bmethods(self, o, e):
        ms = resdet.methods()
        e['methods'] = [[m.name, ppb(m.threshold), (lambda g: g is not None and g.name == m.name and g.threshold == m.threshold and ctypes.addressof(g._rdmethod.contents) == ctypes.addressof(m._rdmethod.contents))(resdet.Method.get(m.name)), 0 < m.threshold <= 1] for m in ms]
        e['nomethods'] = [n for n in ('', 'Sign', 'sig', 'signs', 'zerox ') if resdet.Method.get(n) is not None]
        e['range'] = resdet.default_range()
        e['readers'] = resdet.list_image_readers()
        e['version'] = resdet.libversion()
        e['libversion'] = resdet.libresdet.resdet_libversion().decode()
        e['js'] = False

def main():
    warnings.simplefilter('ignore')
    jobs = json.load(open(sys.argv[1]))
    imgs = np.fromfile(sys.argv[2], dtype=np.float32)
    for t in jobs['traces']:
        pid = os.fork()
        if not pid:
            try:
                signal.alarm(jobs.get('timeout', 60))
                with open(sys.argv[3], 'a') as f:
                    Trace(t, imgs, jobs['offs'], f).run()
                os._exit(0)
            except BaseException:
                import traceback
                traceback.print_exc()
                os._exit(3)
        _, st = os.waitpid(pid, 0)
        if st:
            with open(sys.argv[3], 'a') as f:
                f.write('\n' + json.dumps({'t': t['t'], 'op': 'crash', 'why': 'status %d' % st}) + '\n')
main()
