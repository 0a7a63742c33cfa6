"""The suites of traces the checks are made of."""
import mmap
import numpy as np
from core import *
import gen

METHODS = ['sign', 'mag', 'orig', 'zerox']
KINDS = ['odd', 'any', 'wide', 'steps', 'ramp']

def random_image(s, r, w, h, R=None, kind=None):
    kind = kind or KINDS[r.integers(len(KINDS))]
    c = gen.spectrum(r, w, h, kind)
    for axis, L in ((1, w), (0, h)):
        k = r.integers(0, 3)
        for _ in range(k):
            R2 = R or int(r.integers(1, 5))
            if L > 2 * R2 + 1:
                x = int(r.integers(R2, L - R2))
                c = gen.make_odd_about(c, x, R2, axis, r, r.choice([0.5, 0.8, 1.0]))
                if r.random() < .5:
                    c = gen.dip(c, x, axis)
    return s.image(gen.unspectrum(c), c)

def sizes(r, mx=30):
    k = r.integers(0, 8)
    if k == 0: return 1, int(r.integers(1, mx))
    if k == 1: return int(r.integers(1, mx)), 1
    if k == 2:
        n = int(r.integers(1, mx)); return n, n
    return int(r.integers(1, mx)), int(r.integers(1, mx))

def rand_thr(r):
    k = r.integers(0, 6)
    if k == 0: return (0, 1)
    if k == 1: return (1, 1)
    if k == 2: return (int(r.integers(0, 9)), 8)
    if k == 3: return (int(r.integers(0, 101)), 100)
    return (int(r.integers(0, 17)), 16)

def setparams(r, h=0, R=None, thr=True, filt=0.0):
    """palloc and random settings; returns lines."""
    l = ['palloc %d' % h]
    if R is not None:
        l.append('prange %d %d' % (h, R))
    if thr:
        l.append('pthr %d %s' % (h, gen.thr_args(*rand_thr(r))))
    if r.random() < filt:
        l.append('pfilt %d %d' % (h, r.integers(0, 6)))
    return l

def detection(s, r, variants, n, mx=30, frames=(1, 1, 1, 2, 3), filt=0.0, mask15=True, kind=None, methods=METHODS):
    """Single analyses: random images, sizes, methods and parameters, by analysis and in one call."""
    for k in range(n):
        w, h = sizes(r, mx)
        R = int(r.choice([1, 1, 2, 2, 3, 4, 6, 12, 13]))
        m = methods[r.integers(len(methods))]
        nf = int(r.choice(frames))
        im = [random_image(s, r, w, h, R if r.random() < .7 else None, kind) for _ in range(nf)]
        for v in variants:
            l = []
            p = 'NULL'
            usepar = r.random() < .85
            if usepar:
                p = '0'
                l += setparams(r, 0, R if r.random() < .9 else None, r.random() < .8, filt)
            mm = 'NULL' if m == 'sign' and r.random() < .5 else m
            l.append('create 0 %s %d %d %s 1' % (mm, w, h, p))
            for i in im:
                l.append('analyze 0 %d' % i)
            mask = 15 if mask15 else int(r.choice([15, 15, 3, 12, 11, 14, 2, 8, 10, 0]))
            l.append('results 0 %d' % mask)
            l.append('destroy 0')
            if r.random() < .5:
                l.append('detect %d %d %d %s %s %d %s' % (w, h, mask, mm, p, nf, ' '.join(map(str, im))))
            if usepar:
                l.append('pfree 0')
            l.append('quiesce')
            s.trace(v, l)

def large(s, r, variants, methods=METHODS, shapes=((3, 66000, 1), (66000, 3, 1))):
    """Long thin images, odd about the middle: counts over what 16 bits hold."""
    for w, h, R in shapes:
        L, n = min(w, h), max(w, h)
        c = gen.odd(r, (n, L)); c = c + 2 * np.sign(c)
        mid = L // 2
        for i in range(1, mid + 1): c[:, mid + i] = -c[:, mid - i]
        c[:, mid] = 1
        if w > h: c = c.T
        i = s.image(gen.unspectrum(c), c)
        for m in methods:
            l = ['palloc 0', 'prange 0 %d' % R, 'pthr 0 %s' % gen.thr_args(1, 1), 'create 0 %s %d %d 0 1' % (m, w, h), 'analyze 0 %d' % i, 'results 0 15', 'destroy 0', 'pfree 0', 'quiesce']
            for v in variants: s.trace(v, l)

# --------------------------------------------------------------------------- native files
WS = [b' ', b'\n', b'\t', b'\r\n', b'  ', b' \n ', b'\x0b', b'\x0c']
def ws(r, plain=.5):
    return b' ' if r.random() < plain else WS[r.integers(len(WS))]

def small(r, mx=9):
    return int(r.integers(1, mx + 1))

COMMENTS = [b'# c\n', b'#\n', b'#P5 9 9 9\n# more\n', b'# \xff\x00 binary\n', b'#' + b'x' * 300 + b'\n']
def comment(r):
    return b'' if r.random() < .6 else b''.join(COMMENTS[r.integers(len(COMMENTS))] for _ in range(r.integers(1, 3)))

def pgm_header(r, w, h, m):
    if r.random() < .3: return b'P5\n%d %d\n%d\n' % (w, h, m)
    return b'P5' + WS[r.integers(len(WS))] + comment(r) + (b'%d' if r.random() < .8 else b'%03d') % w + ws(r) + b'%d' % h + ws(r) + b'%d' % m + r.choice([b'\n', b' ', b'\t', b'\r', b'\x0b'])

def pfm_header(r, w, h, color, le):
    scale = r.choice([b'-1.0', b'-1', b'-0.5', b'-255.0', b'-2']) if le else r.choice([b'1.0', b'1', b'0.25', b'+1.0', b'300'])
    if r.random() < .3: return b'P%s\n%d %d\n%s\n' % (b'F' if color else b'f', w, h, scale)
    return b'P' + (b'F' if color else b'f') + WS[r.integers(len(WS))] + comment(r) + b'%d' % w + ws(r) + b'%d' % h + ws(r) + scale + r.choice([b'\n', b' ', b'\t', b'\r'])

SPECIALS = np.array([0.0, -0.0, 1.0, -1.0, np.inf, -np.inf, np.nan, 1e-45, 3.4e38, 0.1, 255.0, 1/3], dtype=np.float32)
def pfm_pixels(r, w, h, color, special=.1):
    if color:
        return r.integers(-300, 301, (h, w, 3)).astype(np.float32)
    p = r.standard_normal((h, w)).astype(np.float32)
    if r.random() < .5: p = (r.integers(0, 256, (h, w)) / 255).astype(np.float32)
    if special:
        m = r.random((h, w)) < special
        p[m] = r.choice(SPECIALS, m.sum())
    return p

CSPS = [None, b'mono', b'mono9', b'mono10', b'mono12', b'mono14', b'mono16', b'420', b'420jpeg', b'420paldv', b'420mpeg2', b'420p9', b'420p10', b'420p12', b'420p14', b'420p16',
        b'411', b'411p10', b'422', b'422p10', b'422p12', b'422p16', b'444', b'444p9', b'444p10', b'444p16', b'444alpha', b'420p8', b'mono8', b'444p8', b'420p11', b'422p13', b'mono15']
LONGTAG = [b'X' + b'H' * 90, b'XW' * 40, b'q' + b'H9' * 50 + b'W', b'XC' + b'mono16C' * 30, b'x' + b'FRAME' * 30, b'Xab' + b'W8H7Cmono' * 40]
TAGS = [b'F30:1', b'F30000:1001', b'Ip', b'It', b'Ib', b'A1:1', b'A0:0', b'XYSCSS=420JPEG', b'Xanything', b'XW5', b'XC420', b'Qunknown', b'x1']
def y4m_full_header(r, w, h, csp):
    t = [b'W%d' % w, b'H%d' % h] + ([b'C' + csp] if csp else [])
    if r.random() < .1: t.insert(int(r.integers(len(t) + 1)), LONGTAG[r.integers(len(LONGTAG))][:int(r.integers(2, 120))])
    if r.random() < .7:
        t += [TAGS[k] for k in r.permutation(len(TAGS))[:r.integers(0, 5)]]
        t = [t[k] for k in r.permutation(len(t))]
    sep = b' ' if r.random() < .8 else b'  '
    return b'YUV4MPEG2 ' + sep.join(t) + (b' ' if r.random() < .1 else b'') + b'\n'

def many(s, r, fmt, rep, w=None, h=None, n=None, fi=False, R=1):
    """A file of a few different frames repeated rep times; returns (number, path, extension, frames in all)."""
    w, h, n = w or small(r, 3), h or small(r, 3), n or int(r.integers(1, 4))
    head, data, ids = b'', b'', []
    if fmt == 'Y4M': head = gen.y4m_header(w, h, b'mono')
    for k in range(n):
        if fmt == 'Y4M':
            p8 = r.integers(0, 256, (h, w)).astype(np.uint8)
            data += b'FRAME\n' + p8.tobytes()
            if fi: ids.append(s.image((p8 / np.float32(255)).astype(np.float32), *gen.project(p8 / 255)))
        else:
            i = random_image(s, r, w, h, R)
            data += gen.pfm_frame(s.pix[i - 1], bool(r.integers(2)))
            ids.append(i)
    k, path = s.file(head + data, 'a.' + fmt.lower(), fi=ids, rep=rep, head=len(head))
    return k, path, fmt.lower(), n * rep

def nearties(s, r, n):
    """Sequences of which a single frame decides the order of candidates that are equal in all the others."""
    for k in range(n):
        w, h, R = int(r.integers(16, 40)), int(r.integers(3, 9)), int(r.integers(1, 3))
        if k % 2: w, h = h, w
        a, b = [random_image(s, r, w, h, R, 'any') for _ in range(2)]
        m = ['sign', 'zerox', 'mag', 'sign'][k % 4]
        s.trace(['fftw', 'kiss'][k % 3 == 0], ['palloc 0', 'prange 0 %d' % R, 'pthr 0 %s' % gen.thr_args(0, 1), 'create 0 %s %d %d 0 1' % (m, w, h), 'analyzen 0 %d %d' % (b, r.choice([300, 3000, 20000])), 'analyze 0 %d' % a, 'results 0 15', 'destroy 0', 'pfree 0', 'quiesce'])

def oddvalues(s, r, n):
    """Images of values that are out of the ordinary but no error: they are analyzed, and not modified."""
    for k in range(n):
        w, h, m = int(r.integers(1, 9)), int(r.integers(1, 9)), METHODS[k % 4]
        p = r.standard_normal((h, w)).astype(np.float32)
        for _ in range(1 + w * h // 2):
            p[r.integers(h), r.integers(w)] = np.float32([-0.0, 1e-45, -1e-40, 1e-38, 3.4028234e38, -3.4028234e38, 1e30, -1.0][r.integers(8)])
        i = s.image(p, np.zeros((h, w), int))
        s.trace(['fftw', 'kiss', 'kasan'][k % 3], ['palloc 0', 'prange 0 1', 'create 0 %s %d %d 0 1' % (m, w, h), 'analyze 0 %d' % i, 'analyzen 0 %d 2' % i, 'results 0 2', 'destroy 0', 'detect %d %d 0 %s 0 2 %d %d' % (w, h, m, i, i), 'pfree 0', 'quiesce'])

class NFile:
    """A native file: format, size, bytes, and where its frames are."""
    def __init__(self, fmt, w, h, data, ends, start, frames=()):
        self.fmt, self.w, self.h, self.data, self.ends, self.start, self.frames = fmt, w, h, data, ends, start, frames
    @property
    def n(self): return len(self.ends)
    @property
    def ext(self): return self.fmt.lower()

HUGE = [('Y4M', 46350, 46345, b'444', 1, 3), ('Y4M', 65536, 32769, b'mono16', 2, 2), ('Y4M', 65536, 65540, b'420', 1, 1.5), ('PFM', 65536, 16400, b'Pf', 4, 4), ('PFM', 32768, 16400, b'PF', 12, 12), ('PFM', 40000, 13500, b'Pf', 4, 4), ('PFM', 40000, 40000, b'PF', 12, 12), ('PFM', 65536, 65540, b'Pf', 4, 4)]
def roomy():
    """Whether a buffer of a few gigabytes can be allocated, as it is (but not used) for the files of huge()."""
    try:
        mmap.mmap(-1, 6 << 30, mmap.MAP_PRIVATE | mmap.MAP_ANONYMOUS).close()
        return True
    except OSError:
        return False

def huge(s, r, k, cuts=False):
    """A sequence whose frames do not fit 31 or 32 bits, of which nothing but the headers takes space.  Returns the
    file, its reader and number of frames."""
    fmt, w, h, c, luma, per = HUGE[k % len(HUGE)]
    n = int(r.integers(2, 4))
    if fmt == 'Y4M':
        cw, ch = ((w + 1) // 2, (h + 1) // 2) if c == b'420' else (w, h)
        per = w * h * luma + (0 if c.startswith(b'mono') else 2 * cw * ch)
        head, mark = gen.y4m_header(w, h, c), b'FRAME\n'
    else:
        per = w * h * per
        head, mark = b'', c + b'\n%d %d\n-1.0\n' % (w, h)
    at, parts, ends = len(head), [], []
    for _ in range(n):
        parts.append((at, mark))
        at += len(mark) + per
        ends.append(at)
    size, have, tail = at, n, 'eof'
    if cuts:
        have = int(r.integers(0, n))
        start = ends[have - 1] if have else len(head)
        size = start + len(mark) + int(r.choice([0, 1, 4096, per - 1, per - 2**31, w * h * luma if fmt == 'Y4M' and per > w * h * luma else per - 1, int(r.integers(0, per))]))
        parts, tail = parts[:have + 1], 'trunc'
    x = {'readers': [fmt], 'w': w, 'h': h, 'd': 255, 't': 0, 'e': tail, 'near': False, 'f': [[] for _ in range(have)]}
    return s.file(head, 'a.' + fmt.lower(), x=x, parts=parts, size=size), fmt, have

def native(r, fmt=None, n=None, w=None, h=None, special=.1, csp=0, mx=9, plain=False):
    """A random well-formed file."""
    fmt = fmt or ['PGM', 'PFM', 'Y4M', 'PFM', 'Y4M'][r.integers(5)]
    w, h = w or small(r, mx), h or small(r, mx)
    ends, frames = [], []
    if fmt == 'PGM':
        m = int(r.choice([255, 255, 1, 2, 100, 254, int(r.integers(1, 256))]))
        d = pgm_header(r, w, h, m); start = len(d)
        p = r.integers(0, m + 1, (h, w)).astype(np.uint8)
        d += p.tobytes(); ends.append(len(d)); frames.append(p / np.float32(m))
    elif fmt == 'PFM':
        if n is None: n = int(r.choice([1, 1, 2, 3, 4]))
        d = b''; start = None
        mixed = r.random() < .4
        c0, l0 = r.random() < .3, r.random() < .6
        for k in range(max(n, 1)):
            color, le = (r.random() < .5, r.random() < .5) if mixed and not plain else (c0 and not plain, l0)
            d += pfm_header(r, w, h, color, le)
            if start is None: start = len(d)
            p = pfm_pixels(r, w, h, color, special)
            d += pfm_frame_data(p, le); ends.append(len(d)); frames.append(p if not color else None)
    else:
        if n is None: n = int(r.choice([0, 1, 1, 2, 3, 4]))
        csp = CSPS[r.integers(len(CSPS))] if isinstance(csp, int) else csp
        d = y4m_full_header(r, w, h, csp); start = len(d)
        for k in range(n):
            params = b'' if r.random() < .7 else r.choice([b' Ip', b' ', b' Xparam I?', b' ' + b'x' * 100])
            mxv = (1 << gen.y4m_depth(csp)) - 1
            luma = r.integers(0, mxv + 1, (h, w))
            d += gen.y4m_frame(r, w, h, csp, params, luma); ends.append(len(d)); frames.append(luma / np.float32(mxv))
    return NFile(fmt, w, h, d, ends, start, frames)

def pfm_frame_data(p, le):
    return p[::-1].astype('<f4' if le else '>f4').tobytes()

def source(r, path, kinds=('file', 'pipe')):
    """A way to present the bytes of path; returns (lines before, source argument)."""
    k = kinds[r.integers(len(kinds))]
    if k == 'file': return [], path
    chunk = int(r.choice([1, 2, 3, 7, 64, 4096, 65536]))
    if k == 'pipe': return [], 'PIPE:%d:%s' % (chunk, path)
    if k == 'stdinfile': return ['stdin file 0 %s' % path], '-'
    if k == 'stdinpipe': return ['stdin pipe %d %s' % (chunk, path)], '-'

READOPS = ['R', 'S0', 'S1', 'S2', 'S3', 'S9']
def opline(r, op, h=0):
    if op == 'R': return 'read %d %s' % (h, 'b' if r.random() < .5 else 'g')
    return 'seek %d %s %d' % (h, op[1:], r.random() < .6)

def openline(r, src, ext, fid, h=0, how=None, fl=15):
    how = how or ['ext', 'type', 'reader'][r.integers(3)]
    if src.startswith('PIPE') or src == '-':
        how = 'type' if how == 'ext' else how
    if how == 'ext': return 'open %d %s NULL %d %d' % (h, src, fl, fid)
    if how == 'type': return 'open %d %s %s %d %d' % (h, src, ext, fl, fid)
    return 'openr %d %s %s %d %d' % (h, src, ext.upper(), fl, fid)

def walk(s, r, f, variants, ops, kinds=('file',), name=None, fid=None):
    """Opens file f (an NFile, or bytes and extension) and performs ops on it."""
    if fid is None:
        fid = s.file(f.data, name or 'a.' + f.ext)
    k, path = fid
    for v in variants:
        pre, src = source(r, path, kinds)
        l = pre + [openline(r, src, f.ext, k)] + [opline(r, o) for o in ops] + ['close 0', 'quiesce']
        s.trace(v, l)
    return fid

# --------------------------------------------------------------------------- histories from the specification
def histories(out):
    """The operation sequences GenReader printed: (n, tail, still?, [ops])."""
    res = []
    for n, tail, kind, h in re.findall(r'<<"HIST", (\d+), "(\w+)", "(\w+)", <<(.*)>>>>', out):
        ops = [a + (k if a == 'S' else '') for a, k in re.findall(r'<<"([RS])", (\d+)>>', h + '>>')]
        res.append((int(n), tail, kind == 'still', ops))
    return res

def pick(r, l):
    return l[r.integers(len(l))]

def junk(r, fmt, w, h):
    """No frame, nor the beginning of one, of a sequence of this size."""
    if fmt == 'Y4M':
        return pick(r, [b'XXXXXXXXXXXX', b'\0\0\0\0\0\0', b'P5\n1 1\n255\n\x00', b'frame\n' + b'x' * 2000, b'FRAM\n' + b'y' * 2000])
    return pick(r, [b'XXXX', b'P5 1 1 1 \0', b'Pf\n%d %d\n-1.0\n' % (w + 1, h) + bytes(4 * (w + 1) * h), b'Pf\n%d %d\n-1.0\n' % (w, h + 1) + bytes(4 * w * (h + 1)),
                     b'Pf\n0 0\n1\n', b'Pg\n%d %d\n1\n' % (w, h) + bytes(4 * w * h), b'\nPf\n%d %d\n1\n' % (w, h) + bytes(4 * w * h)])

def tailed(r, n, tail, still):
    """A file with n complete frames and then what tail says."""
    if still:
        f = native(r, 'PGM')
        if tail == 'trunc':
            cut = int(r.integers(f.start, len(f.data)))
            f = NFile(f.fmt, f.w, f.h, f.data[:cut], [], f.start)
        return f
    fmt = ['PFM', 'Y4M'][r.integers(2)]
    if fmt == 'PFM' and n == 0 and tail != 'trunc':
        fmt = 'Y4M'
    k = n + 1 if tail == 'trunc' else n
    f = native(r, fmt, n=k)
    if tail == 'trunc':
        lo = f.ends[-2] + 1 if len(f.ends) > 1 else f.start if fmt == 'PFM' else f.start + 1
        cut = int(r.integers(lo, f.ends[-1]))
        return NFile(f.fmt, f.w, f.h, f.data[:cut], f.ends[:-1], f.start)
    if tail == 'bad':
        bad = junk(r, fmt, f.w, f.h)
        return NFile(f.fmt, f.w, f.h, f.data + bad, f.ends, f.start)
    return f

def replay_histories(s, r, hist, variants, kinds, probe=('R', 'S1', 'R', 'R', 'S1', 'R')):
    for n, tail, still, ops in hist:
        f = tailed(r, n, tail, still)
        pr = [probe[0]] if r.random() < .3 else list(probe) if r.random() < .5 else ['R'] * 5
        walk(s, r, f, [variants[r.integers(len(variants))]], ops + pr, kinds)

def natural(s, r, w, h):
    """A smooth image with noise, as 8-bit samples over 255."""
    y, x = np.mgrid[0:h, 0:w]
    p = 128 + 60 * np.sin(x * r.uniform(.1, 1.5) + r.uniform(0, 6)) * np.cos(y * r.uniform(.1, 1.5)) + r.normal(0, r.choice([1, 8, 25]), (h, w))
    p = (np.clip(np.rint(p), 0, 255) / 255).astype(np.float32)
    c, t = gen.project(p)
    return s.image(p, c, t)

# --------------------------------------------------------------------------- histories of the interface, from the model
def apihistories(ck, s, r, group, n, variants, faults=0.0):
    """Replays n of the histories MCApi describes, followed by results and releasing everything."""
    out = ck.model('MCApi', cfg=os.path.join(SPEC, 'mc', 'MCApi_%s%s.cfg' % (group, '_more' if THOROUGH else '')), timeout=3000)
    ids = {}
    for m in re.finditer(r'^"IMAGE (\d) (<<.*>>)"$', out, re.M):
        c = np.array(json.loads(m.group(2).replace('<<', '[').replace('>>', ']')))
        ids[m.group(1)] = s.image(gen.unspectrum(c), c)
    bad = gen.unspectrum(c).copy(); bad[2, 3] = np.nan
    ids['3'] = s.image(bad, np.zeros(c.shape, int), 0, True)
    data = bytes(json.loads(re.search(r'^"BYTES <<(.*)>>"$', out, re.M).group(1).join('[]')))
    fid, path = s.file(data, 'a.y4m')
    H = sorted(set(re.findall(r'^"CALLS (.*);"$', out, re.M)))
    if len(H) < 5000: raise CheckError('MCApi: %d histories' % len(H))
    for i in r.permutation(len(H))[:n]:
        l = []
        for call in H[i].split(';'):
            a = call.split(' ')
            if a[0] == 'analyze' and a[2] != 'NULL': a[2] = str(ids[a[2]])
            if a[0] == 'detect': a[7:] = [str(ids[x]) for x in a[7:]]
            if a[0] in ('open', 'readimg'): a[-1] = str(fid)
            l.append(' '.join(path if x == '@F' else x for x in a))
        if r.random() < faults:
            # the last call fails for want of memory, and is then made again
            last = l.pop()
            l += ['fault %d %d' % (r.integers(1, 7), r.integers(2)), last, 'fault 0 0'] + [('!' if last.split()[0] in ('palloc', 'create', 'open') else '') + last]
        l += ['?read 0 g', '?read 0 g', '?read 0 g'] if group == 'file' else []
        held = [h for h in '01' if any(x.startswith('create %s ' % h) or x.startswith('!create %s ' % h) for x in l)]
        held = [h for h in held if not l[-1].startswith('destroy ' + h)]
        l += ['!create %s orig 7 5 NULL 1' % h for h in held]
        l += ['results %s 15' % h for h in held] + ['analyze %s %d' % (h, ids['2']) for h in held] + ['results %s 15' % h for h in held]
        l += ['close 0'] * (group == 'file') + ['destroy 1', 'destroy 0', 'pfree 0', 'quiesce']
        s.trace(variants[r.integers(len(variants))], l)

# --------------------------------------------------------------------------- all small spectra, from the model
def spectra(ck):
    out = ck.model('MCDetect', cfg=os.path.join(SPEC, 'mc', 'MCDetect%d.cfg' % (2 if THOROUGH else 1)), timeout=3000)
    S = sorted((int(w), int(h), [int(x) for x in v.split(',')]) for w, h, v in re.findall(r'^"SPECTRUM (\d+) (\d+) <<([^>]*)>>"$', out, re.M))
    if len(S) < 5000: raise CheckError('MCDetect: %d spectra' % len(S))
    return [np.array(v).reshape(h, w) for w, h, v in S]

def smallspectra(s, r, spec, variants, per=8):
    for k in range(0, len(spec), per):
        l = ['palloc 0', 'pthr 0 %s' % gen.thr_args(*[(0, 1), (0, 1), (1, 2), (1, 1)][r.integers(4)])]
        for c in spec[k:k + per]:
            i = s.image(gen.unspectrum(c), c)
            h, w = c.shape
            for m in METHODS:
                l += ['prange 0 %d' % (1 + (max(w, h) > 4 and r.random() < .5) + (max(w, h) > 6 and r.random() < .3)), 'detect %d %d 15 %s 0 1 %d' % (w, h, m, i)]
        s.trace(variants[r.integers(len(variants))], l + ['pfree 0', 'quiesce'])

# --------------------------------------------------------------------------- streams of pieces, from the model
def streams(ck):
    """(format, pieces, operations) of MCStream."""
    out = ck.model('MCStream', cfg=os.path.join(SPEC, 'mc', 'MCStream%s.cfg' % ('_more' if THOROUGH else '')), workers=1, timeout=3000)
    S = sorted(re.findall(r'^"STREAM (\w+) \d+ \w+ \.(\w*) (.*);"$', out, re.M))
    if len(S) < 3000: raise CheckError('MCStream: %d histories' % len(S))
    return [(f, p, ops.split(';')) for f, p, ops in S]

def pieced(r, fmt, pieces, mx=5):
    """A file of the given pieces (see MCStream), each a random part of what it stands for."""
    n = 4
    w, h = int(r.integers(2, mx + 1)), int(r.integers(2, mx + 1))
    chroma = [c for c in CSPS if c is None or c[:4] != b'mono']
    csp = chroma[r.integers(len(chroma))]
    f = native(r, fmt, n=n, w=w, h=h, csp=csp)
    inside = lambda a, b: int(r.integers(a + 1, b)) if b - a > 1 else a
    cuts = []       # where each piece ends
    at = f.start if fmt != 'PFM' else 0
    for end in f.ends:
        d = f.data
        if fmt == 'PGM':
            cuts += [inside(at, end), end]
        elif fmt == 'PFM':
            data = end - 4 * w * h * (3 if d[at + 1:at + 2] == b'F' else 1)
            if at: cuts += [at + 1, inside(at + 1, data), data]
            cuts += [inside(data, end), end]
        else:
            nl = d.index(b'\n', at) + 1
            luma = nl + w * h * (1 if gen.y4m_depth(csp) == 8 else 2)
            cuts += [at + int(r.integers(1, 5)), inside(at + 4, nl) if r.random() < .5 else at + 5, nl, inside(nl, luma), luma, inside(luma, end), end]
        at = end
    k = len(pieces.split('x')[0])
    data = f.data[:cuts[min(k, len(cuts)) - 1] if k else f.start]
    if k > len(cuts): data += r.bytes(k - len(cuts))      # after the only image
    if 'x' in pieces: data += junk(r, fmt, w, h)
    return NFile(fmt, w, h, data, [e for e in f.ends if e <= len(data)], f.start)

# --------------------------------------------------------------------------- whole files in one call, from the model
def calls(ck):
    """The cases of MCBulk: (call, header, still?, frames, tail, bad frame, limit, failing allocation, all later ones?)."""
    out = ck.model('MCBulk', cfg=os.path.join(SPEC, 'mc', 'MCBulk%s.cfg' % ('_more' if THOROUGH else '')), timeout=3000)
    S = sorted(re.findall(r'^"BULK (\w+) (\w+) (\w+) (\d+) (\w+) (\d+) (\d+) (\d+) (\w+)"$', out, re.M))
    if len(S) < 5000: raise CheckError('MCBulk: %d cases' % len(S))
    return [(c, st, x == 'TRUE', int(n), t, int(b), int(lim), int(fk), al == 'TRUE') for c, st, x, n, t, b, lim, fk, al in S]

def call(s, r, case, repeat=1):
    """One of them on the real library."""
    from checks_c import badimages
    c, st, still, n, tail, bad, lim, fk, al = case
    v, P = [('fftw', 0), ('kasan', 0), ('kiss', 0)][r.integers(3)] if lim == 99 else [('pmax', 48), ('pmaxk', 96)][r.integers(2)]
    if lim == 99: w, h = small(r, 6), small(r, 6)
    else:
        wh = [(w, h) for w in range(1, P + 2) for h in range(1, P // w + 2) if (w * h > P if lim == 0 else P // (w * h) == lim)]
        w, h = wh[r.integers(len(wh))]
    fault = ['fault %d %d' % (fk, al)] if fk else []
    m, mask = METHODS[r.integers(4)], int(r.choice([15, 15, 3, 12]))
    def image(k):
        return badimages(s, r, w, h)[0] if k + 1 == bad else random_image(s, r, w, h, 1)
    if c == 'detect':
        ii = [image(k) for k in range(n)]
        l = fault + ['detect %d %d %d %s NULL %d %s' % (w, h, mask, m, n, ' '.join(map(str, ii)))]
    else:
        fmt = 'PGM' if still else 'PFM' if bad or (n or tail == 'trunc') and r.random() < .5 else 'Y4M'
        if fmt == 'PFM' and n == 0 and tail != 'trunc': fmt = 'Y4M'
        ii, data, last = [], y4m_full_header(r, w, h, b'mono') if fmt == 'Y4M' else b'', 0
        for k in range(n + (tail == 'trunc')):
            last = len(data)
            if fmt == 'PFM':
                i = image(k)
                head = pfm_header(r, w, h, False, True)
                data += head + pfm_frame_data(s.pix[i - 1], True)
            else:
                p8 = r.integers(0, 256, (h, w)).astype(np.uint8)
                i = s.image((p8 / np.float32(255)).astype(np.float32), *gen.project(p8 / 255))
                if fmt == 'PGM': data += gen.pgm(p8)
                else: data += gen.y4m_frame(r, w, h, b'mono', b'', p8)
            ii.append(i)
        if tail == 'trunc': data = data[:-int(r.integers(1, w * h * (4 if fmt == 'PFM' else 1) + 1))]
        elif tail == 'bad': data += junk(r, fmt, w, h)
        if st == 'err': data = b'Q' + data[1:]
        fid, path = s.file(data, 'a.' + fmt.lower(), fi=ii)
        pre, src = source(r, path, ('file', 'file', 'stdinfile', 'pipe'))
        ty = 'NULL' if src == path and r.random() < .6 else fmt.lower()
        l = pre + fault + ['readimg %s %s %d' % (src, ty, fid) if c == 'readimg' else 'dfile %s %s %d %s NULL %d' % (src, ty, mask, m, fid)]
    s.trace(v, l + (['fault 0 0'] if fault else []) + ['quiesce'])
