"""The checks of the bindings."""
from core import *
import gen, suites, formats
from suites import *
from bindings import *
from checks import check, q, CHECKS, badimages, BADTHR, GOODTHR
from checks_r import pick, NV

def rpar(r, R=None, bad=.08, js=False):
    """Random parameters."""
    kw = {}
    if R is not None or r.random() < .5: kw['r'] = R or int(r.choice([1, 2, 3, 12]))
    if r.random() < .7: kw['thr'] = gen.thr_args(*(rand_thr(r) if r.random() < .6 else (0, 1)))
    if r.random() < .2: kw['f'] = int(r.choice([0, 1, 2, 3, 31]))
    if r.random() < bad:
        c = r.choice([0, 1, 2, 5]) if js else r.integers(6)
        if c == 0: kw['r'] = 0
        elif c == 1: kw['thr'] = pick(r, BADTHR)
        elif c == 2: kw['f'] = int(r.integers(32, 256))
        elif c == 3: kw.update(r=pick(r, [-1, 2**64, 2**64 + 1, -2**64 + 3]), badr=True)
        elif c == 4: kw.update(f=pick(r, [256, 257, -1, -256, 65536, 2**32]), badf=True)
        elif c == 5: kw['x'] = True
    return par(**kw)

FLAT = ['list', 'array', 'ptr', 'carray']
ND = ['nd:C', 'nd:F', 'nd:strided', 'nd:neg', 'nd:be', 'nd:ro', 'nd:T', 'nd:f8']
NDI = ['nd:u1', 'nd:i2', 'nd:i4', 'nd:i8', 'nd:u2', 'nd:f8', 'nd:>i4', 'nd:f2', 'nd:C', 'nd:F']

def intimage(s, r, w, h):
    """Integer samples 0..255, so that integer types can hold them."""
    y, x = np.mgrid[0:h, 0:w]
    p = np.rint(np.clip(128 + 60 * np.sin(x * r.uniform(.1, 1.5) + r.uniform(0, 6)) * np.cos(y * r.uniform(.1, 1.5)) + r.normal(0, 10, (h, w)), 0, 255)).astype(np.float32)
    c, t = gen.project(p)
    return s.image(p, c, t)

def detkind(r, n, ints, kinds):
    if n == 0: return pick(r, kinds or FLAT)
    l = kinds or FLAT + ['buffer', 'buffer'] + [k + ('3' if r.random() < .3 else '') for k in (NDI if ints else ND)] + ['pil:tiff', 'pil:tiff', 'pil:tiff1', 'pil:tiff2'] + ['pil:pages'] * 2 * ints
    if n == 1 and not kinds: l += ['pil:L', 'pil:I', 'pil:F', 'pil:RGB', 'pil:RGBA', 'pil:LA', 'pil:P', 'pil:I;16'] if ints else ['pil:F', 'pil:F']
    return pick(r, l)

@check('P01')
def P01(ck):
    r = gen.rng(SEED, 'P01')
    s = BindSuite('p01')
    V = ['fftw', 'kiss', 'bare', 'range3', 'pmax']
    bind_detection(s, r, q(300, 2000), V)
    # every kind of image data, every method
    for kind in FLAT + ['buffer'] + ND + [k + '3' for k in ND] + ['pil:F', 'pil:tiff', 'pil:tiff1']:
        for n in (1, 2, 3):
            if n > 1 and kind == 'pil:F': continue
            w, h = 6, 4
            im = [random_image(s, r, w, h, 1) for _ in range(n)]
            l = []
            for m in METHODS:
                d, sp = par(r=1, thr=gen.thr_args(0, 1))
                l.append({'op': 'bdetect', 'kind': kind, 'imgs': im, 'n': n, 'w': w, 'hh': h, 'm': m, 'dict': d, 'par': sp, 'nullimg': False})
            s.calls(pick(r, V[:4]), l)
    for kind in NDI + [k + '3' for k in NDI] + ['pil:L', 'pil:I', 'pil:F', 'pil:RGB', 'pil:RGBA', 'pil:LA', 'pil:P', 'pil:I;16', 'pil:pages', 'pil:tiff']:
        w, h = int(r.integers(3, 9)), int(r.integers(3, 9))
        im = [intimage(s, r, w, h)]
        d, sp = par(r=1, thr=gen.thr_args(0, 1))
        l = [{'op': 'bdetect', 'kind': kind, 'imgs': im, 'n': 1, 'w': w, 'hh': h, 'm': m, 'dict': d, 'par': sp, 'nullimg': False} for m in METHODS]
        l += [{'op': 'bcreate', 'h': 0, 'm': 'sign', 'w': w, 'hh': h, 'dict': d, 'par': sp}, {'op': 'banalyze', 'h': 0, 'kind': kind.rstrip('3'), 'img': im[0]}, {'op': 'bresults', 'h': 0}]
        s.calls(pick(r, V[:4]), l)
    # pages of different sizes
    for k in range(q(40, 200)):
        w, h = sizes(r, 16)
        n = int(r.choice([2, 2, 3, 4]))
        im = [random_image(s, r, w, h, 2) for _ in range(n)]
        d, sp = rpar(r, 2)
        c = r.integers(4)
        ow, oh = [(w, max(1, h + int(r.choice([-1, 1, 9])))), (max(1, w + int(r.choice([-1, 1, 30]))), h), (h, w), (max(1, w // 2), max(1, h // 2))][c]
        mixed = (ow, oh) != (w, h)
        e = {'op': 'bdetect', 'kind': pick(r, ['pil:tiff', 'pil:tiff', 'pil:tiff1', 'pil:tiff2']), 'imgs': im, 'n': n, 'w': w, 'hh': h, 'm': pick(r, [''] + METHODS), 'dict': d, 'par': sp, 'nullimg': False}
        if mixed: e.update(other=[int(r.integers(1, n)), oh, ow], mixed=True)
        s.calls(pick(r, V), [e, {**e, 'kind': 'nd:C'}] if not mixed else [e])
    # from files
    for k in range(q(60, 400)):
        w, h = sizes(r, 16)
        n = int(r.choice([1, 1, 2, 3]))
        im = [random_image(s, r, w, h, 2) for _ in range(n)]
        if r.random() < .2: im[int(r.integers(n))] = badimages(s, r, w, h)[0]
        data = b''.join(gen.pfm_frame(s.pix[j - 1]) for j in im)
        if r.random() < .2: data = data[:-int(r.integers(1, 4))]
        fid, path = s.file(data, pick(r, ['a.pfm', 'b.PFM', 'é ü.pfm', 'x.abc']), fi=im)
        if r.random() < .05: fid, path = 0, os.path.join(s.dir, 'missing.pfm')
        d, sp = rpar(r)
        s.calls(pick(r, V[:3]), [{'op': 'bdfile', 'path': path, 'file': fid, 'type': pick(r, ['NULL', 'NULL', 'pfm', 'image/x-portable-floatmap', 'xyz']) if not path.endswith('abc') else pick(r, ['NULL', 'pfm', 'PFM']), 'm': pick(r, [''] + METHODS), 'dict': d, 'par': sp,
            'fkind': pick(r, ['str', 'Path', 'custom'] + (['DirEntry'] if fid else []))}])
    for v in V: s.calls(v, [{'op': 'bmethods'}])
    s.runjobs()
    ck.validate(s)

def bind_detection(s, r, N, V, kinds=None):
    for k in range(N):
        v = V[k % len(V)]
        P = 48 if 'pmax' in v else 10**9
        w, h = sizes(r, 16)
        ints = r.random() < .3 and kinds is None
        R = int(r.choice([1, 2, 3]))
        n = int(r.choice([0, 1, 1, 1, 2, 3]))
        pool = [intimage(s, r, w, h) if ints else random_image(s, r, w, h, R) for _ in range(3)]
        bad = badimages(s, r, w, h)
        l = []
        m = pick(r, [''] + METHODS)
        for _ in range(int(r.integers(1, 4))):
            im = [pick(r, pool) for _ in range(n)]
            if n and not ints and r.random() < .15: im[int(r.integers(n))] = pick(r, bad)
            d, sp = rpar(r, R, js=kinds is not None)
            kind = detkind(r, n, ints, kinds)
            e = {'op': 'bdetect', 'kind': kind, 'imgs': im, 'n': n, 'w': w, 'hh': h, 'm': pick(r, [m, m, '', 'mag']), 'dict': d, 'par': sp, 'nullimg': False}
            if n == 1 and (kind in FLAT or kinds) and r.random() < .15:
                c = r.integers(3 if kinds is None else 2)
                if c == 0: e['w'], e['imgs'] = 0, []
                elif c == 1: e['hh'], e['imgs'] = 0, []
                else: e['kind'], e['nullimg'], e['imgs'] = 'none', True, []
            if kind == 'array' and not e['imgs']: e['nullimg'] = True      # an empty array has no address
            l.append(e)
        # sequential analysis; two at once
        hs = [0, 1] if r.random() < .3 else [0]
        how = pick(r, ['', 'with', 'method'])
        live = []
        for x in hs:
            d, sp = rpar(r, R, .04, kinds is not None)
            e = {'op': 'bcreate', 'h': x, 'm': m, 'w': w, 'hh': h, 'dict': d, 'par': sp, 'how': how, 'cls': pick(r, ['resdet', 'numpy', 'pil'])}
            if not (sp.get('x') or 'bad' in (sp.get('r', {}).get('k'), sp.get('f', {}).get('k')) or (d and ('range' in d and d['range'] == 0 or d.get('compression_filter', 0) > 31 or not 0 <= d.get('threshold', .5) <= 1))) and w * h <= P: live.append(x)
            l.append(e)
        if live:
            for _ in range(int(r.integers(1, 6))):
                x = pick(r, live)
                c = r.random()
                kind = detkind(r, 1, ints, kinds)
                kind = kind.rstrip('3')
                if c < .6: l.append({'op': 'banalyze', 'h': x, 'kind': kind, 'img': pick(r, pool)})
                elif c < .75: l.append({'op': 'banalyze', 'h': x, 'kind': kind if not ints else 'list', 'img': pick(r, bad)})
                elif c < .8 and kinds is None: l.append({'op': 'banalyze', 'h': x, 'kind': 'none', 'img': 0})
                else: l.append({'op': 'bresults', 'h': x})
                if kinds and r.random() < .2: l.append({'op': 'bgc'})
            for x in live: l += [{'op': 'bresults', 'h': x}, {'op': 'bresults', 'h': x}, {'op': 'bdestroy', 'h': x, 'how': how}]
        if kinds:
            for e in l:
                if 'how' in e or e['op'] == 'bdetect': e['how'] = pick(r, ['', 'undef', 'short'])
            l.append({'op': 'bleak'})
        s.calls(v, l)

@check('P02')
def P02(ck):
    r = gen.rng(SEED, 'P02')
    s = BindSuite('p02')
    V = ['fftw', 'bare', 'kiss', 'pmax']
    def opn(h, fid, path, ext, cls):
        how = pick(r, ['ext', 'type', 'reader'])
        e = {'op': 'openr' if how == 'reader' else 'open', 'h': h, 'path': path, 'file': fid, 'type': {'ext': 'NULL', 'type': ext, 'reader': ext.upper()}[how], 'cls': cls, 'fl': 14 + (cls != 'resdet' or r.random() < .7), 'how': pick(r, ['', 'with'])}
        e['fkind'] = pick(r, ['str', 'Path', 'custom'] + (['DirEntry'] if fid else []))
        if r.random() < .3: e['reuse'] = [int(r.integers(1, 6)) for _ in range(3)]
        return e
    def reads(h, cls, o, own=None):
        if o == 'R':
            how = pick(r, {'resdet': ['buf', 'flat'], 'numpy': ['nd', 'nd', 'iter', 'buf'], 'pil': ['pil', 'pil', 'iter', 'nd']}[cls])
            return {'op': 'read', 'h': h, 'how': how, **({'own': True, 'closed': True} if how in ('buf', 'flat') and r.random() < .1 else {'own': bool(r.random() < .3)})}
        return {'op': 'seek', 'h': h, 'n': int(o[1:]), 'cb': bool(r.random() < .6)}
    for k in range(q(300, 2000)):
        f = native(r, mx=7) if r.random() < .5 else tailed(r, int(r.integers(0, 4)), pick(r, ['eof', 'trunc', 'bad']), r.random() < .2)
        fid, path = s.file(f.data, pick(r, ['a.', 'b.c.', 'ü.']) + f.ext)
        cls = pick(r, ['resdet', 'numpy', 'pil'])
        l = [opn(0, fid, path, f.ext, cls)]
        l += [reads(0, cls, pick(r, ['R', 'R', 'R', 'S0', 'S1', 'S2', 'S9'])) for _ in range(int(r.integers(1, 8)))]
        if r.random() < .3:
            # after all frames
            l += [reads(0, cls, 'R') for _ in range(4)]
        l.append({'op': 'close', 'h': 0, 'how': pick(r, ['', 'with', 'method'])})
        s.calls(V[k % 4] if f.w * f.h <= 48 else V[k % 3], l)
    # very many frames
    for k in range(q(4, 12)):
        fid, path, e, N = many(s, r, ['PFM', 'Y4M'][k % 2], 33000, n=2)
        cls = pick(r, ['resdet', 'numpy', 'pil'])
        s.calls(V[k % 3], [opn(0, fid, path, e, cls)] + [x for j in (pick(r, [255, 256, 65535, 65536]), 3, 0) for x in ({'op': 'seek', 'h': 0, 'n': int(j), 'cb': bool(k % 4 < 2)}, reads(0, cls, 'R'))] + [{'op': 'close', 'h': 0, 'how': 'method'}])
    for k in range(q(4, 12)):
        fid, path, e, N = many(s, r, ['PFM', 'Y4M'][k % 2], int(r.integers(258, 600)), n=1)
        s.calls(V[k % 3], [{'op': 'readimg', 'path': path, 'file': fid, 'type': pick(r, ['NULL', e])}])
    # two images at once
    for k in range(q(40, 200)):
        l, cl = [], {}
        for h in (0, 1):
            f = native(r, n=3, mx=5)
            fid, path = s.file(f.data, 'a.' + f.ext)
            cl[h] = pick(r, ['resdet', 'numpy', 'pil'])
            l.append(opn(h, fid, path, f.ext, cl[h]))
        for _ in range(8):
            h = int(r.integers(2))
            l.append(reads(h, cl[h], pick(r, ['R', 'R', 'S1', 'S0'])))
        s.calls(pick(r, V[:3]), l + [{'op': 'close', 'h': h, 'how': pick(r, ['', 'with', 'method'])} for h in (1, 0)])
    # in bulk, and indexing
    for k in range(q(120, 800)):
        f = native(r, mx=6) if r.random() < .6 else tailed(r, int(r.integers(0, 4)), pick(r, ['eof', 'trunc', 'bad']), r.random() < .2)
        fid, path = s.file(f.data, 'a.' + f.ext)
        l = [{'op': 'readimg', 'path': path, 'file': fid, 'type': pick(r, ['NULL', 'NULL', f.ext]), 'fkind': pick(r, ['str', 'Path', 'custom', 'DirEntry'])}]
        s.calls(V[k % 3], l)
        if r.random() < .7:
            # only of files that surely can be read
            f = native(r, mx=5)
            if f.n == 0: continue
            fid, path = s.file(f.data, 'a.' + f.ext)
            W, H, n = f.w, f.h, f.n
            l = [{'op': 'readimg', 'path': path, 'file': fid, 'type': 'NULL'}]
            for _ in range(25):
                c = r.integers(3)
                z = lambda m: int(pick(r, [0, m - 1, m, int(r.integers(0, m)), int(r.integers(0, m)), -1, -m, m + 1]))
                l.append({'op': 'bindex', 'again': True, 'file': fid, 'rd': f.fmt, 'ix': [[z(n * W * H)], [z(H), z(W)], [z(n), z(H), z(W)]][c], 'v': [0, 0]})
            s.calls(V[k % 3], l)
    # unreadable ones
    for k in range(q(40, 200)):
        e, d = list(formats.headers(r, 40))[int(r.integers(40))]
        fid, path = s.file(d, 'a.' + e)
        cls = pick(r, ['resdet', 'numpy', 'pil'])
        s.calls('bare', [opn(0, fid, path, e, cls), reads(0, cls, 'R'), {'op': 'close', 'h': 0, 'how': 'method'}, {'op': 'readimg', 'path': path, 'file': fid, 'type': 'NULL'}])
    for v in V[:2]:
        for cls in ('resdet', 'numpy', 'pil'):
            for t in ('NULL', 'pgm', 'xyz'):
                s.calls(v, [{'op': 'open', 'h': 0, 'path': os.path.join(s.dir, 'no such.pgm'), 'file': 0, 'type': t, 'cls': cls, 'fl': 15}, {'op': 'readimg', 'path': os.path.join(s.dir, 'no such.pgm'), 'file': 0, 'type': t}])
    s.runjobs()
    ck.validate(s)

@check('J01')
def J01(ck):
    r = gen.rng(SEED, 'J01')
    s = JsSuite('j01')
    V = ['js', 'js-range', 'js-pmax', 'js-cD', 'js-iF']
    K = ['f32', 'f32', 'sub', 'shared']
    bind_detection(s, r, q(300, 2500), ['js', 'js', 'js-range', 'js-pmax', 'js-cD', 'js-iF'], K)
    E = lambda op, im, w, h, m='', **kw: dict({'op': op, 'kind': 'f32', 'imgs': im, 'n': len(im), 'w': w, 'hh': h, 'm': m, 'dict': None, 'par': {'k': 'none'}, 'nullimg': False}, **kw)
    # every method and every parameter alone
    for m in [''] + METHODS:
        for kw in ({}, {'r': 2}, {'thr': gen.thr_args(0, 1)}, {'f': 3}, {'r': 1, 'thr': gen.thr_args(1, 4)}, {'r': 0}, {'thr': BADTHR[0]}, {'f': 32}, {'f': 255}, {'x': True}, {'empty': True}):
            w, h = int(r.integers(3, 12)), int(r.integers(3, 12))
            d, sp = par(**kw)
            im = random_image(s, r, w, h, 2)
            s.calls(pick(r, V[:2]), [E('bdetect', [im], w, h, m, dict=d, par=sp, kind=pick(r, K)), {'op': 'bleak'}])
    # data that makes the memory grow, in a module that has other data
    for k in range(q(6, 20)):
        l = []
        for h, (w, hh) in enumerate([(int(r.integers(300, 500)), int(r.integers(2, 4))), (3, int(r.integers(300, 600)))]):
            d, sp = par(r=2)
            l.append({'op': 'bcreate', 'h': h, 'm': pick(r, METHODS), 'w': w, 'hh': hh, 'dict': d, 'par': sp})
            l += [{'op': 'banalyze', 'h': h, 'kind': 'f32', 'img': random_image(s, r, w, hh, 1)} for _ in range(2)]
        n = int(r.integers(200, 3000))
        w, h = int(r.integers(8, 20)), int(r.integers(8, 20))
        im = [random_image(s, r, w, h, 1) for _ in range(2)]
        d, sp = par(r=1, thr=gen.thr_args(0, 1))
        l.append(E('bdetect', [im[0]] * (n % 64 + 1) + [im[1]], w, h, pick(r, METHODS), dict=d, par=sp))
        l += [{'op': 'bresults', 'h': 0}, {'op': 'bresults', 'h': 1}, {'op': 'bdestroy', 'h': 0}, {'op': 'bgc'}, {'op': 'bresults', 'h': 1}, {'op': 'bleak'}]
        s.calls('js', l)
    # the first image makes the memory grow
    for k in range(q(3, 12)):
        w, h = int(r.integers(300, 420)), int(r.integers(56, 60))
        if k % 2: w, h = h, w
        d, sp = par(r=1, thr=gen.thr_args(1, 2))
        s.calls('js', [{'op': 'bcreate', 'h': 0, 'm': pick(r, METHODS), 'w': w, 'hh': h, 'dict': d, 'par': sp}, {'op': 'banalyze', 'h': 0, 'kind': pick(r, K), 'img': random_image(s, r, w, h, 1)}, {'op': 'bresults', 'h': 0}, {'op': 'bdestroy', 'h': 0}, {'op': 'bleak'}])
    # sizes beyond 16 bits
    for w, h in ((33000, 1), (1, 66000)) if THOROUGH or SEED % 2 else ((1, 33000), (66000, 1)):
        d, sp = par(r=1, thr=gen.thr_args(1, 1))
        s.calls('js', [E('bdetect', [random_image(s, r, w, h, 1)], w, h, 'sign', dict=d, par=sp), {'op': 'bleak'}])
    # memory that cannot be had
    for k in range(q(60, 300)):
        w, h = sizes(r, 12)
        n = int(r.choice([1, 1, 2]))
        im = [random_image(s, r, w, h, 1) for _ in range(n)]
        d, sp = rpar(r, 1, 0)
        m = pick(r, METHODS)
        if k % 3 == 0: l = [E('bdetect', im, w, h, m, dict=d, par=sp, fail=int(r.integers(1, 30))), E('bdetect', im, w, h, m, dict=d, par=sp)]
        else:
            l = [{'op': 'bcreate', 'h': 0, 'm': m, 'w': w, 'hh': h, 'dict': d, 'par': sp, 'fail': int(r.integers(1, 8)) if k % 3 == 1 else 0}]
            if k % 3 == 2: l += [{'op': 'banalyze', 'h': 0, 'kind': 'f32', 'img': im[0]}, {'op': 'bresults', 'h': 0, 'fail': int(r.integers(1, 8))}]
            l.append({'op': 'bcreate', 'h': 1, 'm': m, 'w': w, 'hh': h, 'dict': d, 'par': sp})
            l += [{'op': 'banalyze', 'h': 1, 'kind': 'f32', 'img': im[0]}, {'op': 'bresults', 'h': 1}]
        s.calls('js', l)
    for v in V: s.calls(v, [{'op': 'bmethods'}])
    s.runjobs()
    ck.validate(s)
