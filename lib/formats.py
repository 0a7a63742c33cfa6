"""Files of the formats which resdet reads through other libraries, and files that are not what they should be."""
import base64, struct, zlib, json, os
from core import *
import gen, suites
from suites import *

PILPY = '/opt/resdet-venv/bin/python'
def pil(jobs):
    """Encodes images with Pillow.  jobs: (format, frames as uint8 arrays, arguments).  Returns (bytes, decoded luma or None)."""
    if not jobs: return []
    a, b = os.path.join(WORK, 'pil-%d.json' % time.time_ns()), os.path.join(WORK, 'pil-%d.out' % time.time_ns())
    json.dump([{'format': f, 'kw': {k: v for k, v in kw.items() if k != 'mode'}, **({'mode': kw['mode']} if 'mode' in kw else {}), 'frames': [{'s': list(x.shape), 'd': base64.b64encode(np.ascontiguousarray(x, np.uint8).tobytes()).decode()} for x in fr]} for f, fr, kw in jobs], open(a, 'w'))
    sh([PILPY, os.path.join(VERIF, 'lib', 'pil_helper.py'), a, b], WORK, dict(os.environ), 'pil_helper')
    r = json.load(open(b))
    os.unlink(a); os.unlink(b)
    return [(base64.b64decode(x['data']), np.array(x['luma']) if 'luma' in x else None) for x in r]

def claim(readers, frames, d=255, t=0, e='eof', near=False):
    """Frames as integer matrices over d; e: what follows them; within t, in steps of 1/d or (near) not."""
    h, w = frames[0].shape
    return {'readers': readers, 'w': w, 'h': h, 'd': d, 't': t, 'e': e, 'near': near, 'f': [[int(v) for v in f.flat] for f in frames]}

# --------------------------------------------------------------------------- PNG
def chunk(name, data):
    return struct.pack('>I', len(data)) + name + data + struct.pack('>I', zlib.crc32(name + data))
ADAM7 = [(0, 0, 8, 8), (4, 0, 8, 8), (0, 4, 4, 8), (2, 0, 4, 4), (0, 2, 2, 4), (1, 0, 2, 2), (0, 1, 1, 2)]
def png(r, w, h, color, depth, interlace, trns, samples=None):
    """Returns the file, and the sums of the 8-bit color samples with their maximum."""
    ch = {0: 1, 2: 3, 3: 1, 4: 2, 6: 4}[color]
    plte = None
    if color == 3:
        n = int(r.integers(1, (1 << depth) + 1))
        plte = r.integers(0, 256, (n, 3))
        a = r.integers(0, n, (h, w, 1))
    else:
        a = r.integers(0, 1 << depth, (h, w, ch)) if samples is None else samples
    def pack(rows):
        out = b''
        for row in rows:
            v = row.reshape(-1)
            if depth == 16: b = v.astype('>u2').tobytes()
            elif depth == 8: b = v.astype('u1').tobytes()
            else:
                bits = ''.join(format(int(x), '0%db' % depth) for x in v)
                bits += '0' * (-len(bits) % 8)
                b = bytes(int(bits[i:i + 8], 2) for i in range(0, len(bits), 8))
            out += b'\0' + b
        return out
    if interlace:
        raw = b''
        for x0, y0, dx, dy in ADAM7:
            sub = a[y0::dy, x0::dx]
            if sub.size: raw += pack(sub)
    else:
        raw = pack(a)
    d = b'\x89PNG\r\n\x1a\n' + chunk(b'IHDR', struct.pack('>IIBBBBB', w, h, depth, color, 0, 0, int(interlace)))
    if r.random() < .3: d += chunk(b'tEXt', b'Comment\0something')
    if plte is not None: d += chunk(b'PLTE', plte.astype('u1').tobytes())
    if trns:
        if color == 3: d += chunk(b'tRNS', bytes(int(x) for x in r.integers(0, 256, int(r.integers(1, len(plte) + 1)))))
        elif color == 0: d += chunk(b'tRNS', struct.pack('>H', int(a[0, 0, 0])))
        elif color == 2: d += chunk(b'tRNS', struct.pack('>HHH', *[int(x) for x in a[0, 0]]))
    z = zlib.compress(raw)
    k = int(r.integers(1, 4))
    for i in range(k):   # split into several chunks
        p = z[len(z) * i // k:len(z) * (i + 1) // k]
        d += chunk(b'IDAT', p)
    d += chunk(b'IEND', b'')
    if color == 3: s8 = plte[a[:, :, 0]]
    else:
        s8 = a[:, :, :{0: 1, 2: 3, 4: 1, 6: 3}[color]]
        s8 = s8 >> 8 if depth == 16 else s8 * (255 // ((1 << depth) - 1))
    return d, s8.sum(axis=2), 255 * s8.shape[2]

PNGTYPES = [(0, 1), (0, 2), (0, 4), (0, 8), (0, 16), (2, 8), (2, 16), (3, 1), (3, 2), (3, 4), (3, 8), (4, 8), (4, 16), (6, 8), (6, 16)]
def pngs(s, r, n, variants):
    combos = [(c, d, i, t) for c, d in PNGTYPES for i in (False, True) for t in ((False, True) if c in (0, 2, 3) else (False,))]
    for k in range(n):
        c, d, i, t = combos[k % len(combos)]
        w, h = (int(r.integers(1, 20)), int(r.integers(1, 20))) if r.random() < .8 else (1, int(r.integers(1, 9)))
        data, sums, mx = png(r, w, h, c, d, i, t)
        fid = s.file(data, 'a.png', x=claim(['libpng'], [sums], mx))
        ops = [['R', 'R', 'R'], ['S1', 'R'], ['S0', 'R', 'S1', 'R'], ['S2', 'R'], ['R', 'S0', 'S1', 'R']][r.choice(5, p=[.6, .1, .1, .1, .1])]
        still(s, r, fid, 'png', 'libpng', variants[k % len(variants)], ops)

def still(s, r, fid, ext, reader, v, ops):
    pre, src = source(r, fid[1], ('file', 'file', 'pipe', 'stdinfile', 'stdinpipe'))
    o = {0: 'open 0 %s NULL 15 %d' % (src, fid[0]) if not pre and src == fid[1] else 'open 0 %s %s 15 %d' % (src, ext, fid[0]), 1: 'open 0 %s %s 15 %d' % (src, ext, fid[0]), 2: 'openr 0 %s %s 15 %d' % (src, reader, fid[0])}[int(r.integers(3))]
    l = pre + [o] + ['?' + opline(r, x) for x in ops] + ['close 0']
    if r.random() < .3: l.append('readimg %s NULL %d' % (fid[1], fid[0]))
    s.trace(v, l + ['quiesce'])

# --------------------------------------------------------------------------- JPEG
def jpegs(s, r, n, variants):
    jobs = []
    for k in range(n):
        w, h = (int(r.integers(1, 40)), int(r.integers(1, 40))) if r.random() < .8 else (1, 1)
        gray = r.random() < .4
        y, x = np.mgrid[0:h, 0:w]
        a = (128 + 100 * np.sin(x * r.uniform(0, 1) + r.uniform(0, 6)) * np.cos(y * r.uniform(0, 1))).astype(np.uint8) if r.random() < .6 else r.integers(0, 256, (h, w)).astype(np.uint8)
        if not gray: a = np.stack([a, np.roll(a, 1, 0), r.integers(0, 256, (h, w)).astype(np.uint8)], -1)
        kw = {'quality': int(r.choice([30, 75, 95])), 'progressive': bool(r.random() < .4), 'optimize': bool(r.random() < .3)}
        if not gray: kw['subsampling'] = int(r.integers(0, 3))
        if r.random() < .2: kw['restart_marker_blocks'] = 2
        jobs.append(('JPEG', [a], kw))
    for k, (data, luma) in enumerate(pil(jobs)):
        fid = s.file(data, ['a.jpg', 'a.jpeg', 'a.JPG'][r.integers(3)], x=claim(['libjpeg'], [luma], 255, 1))
        ops = [['R', 'R', 'R'], ['S1', 'R'], ['S0', 'R', 'S1', 'R'], ['S2', 'R']][r.choice(4, p=[.7, .1, .1, .1])]
        still(s, r, fid, 'jpg', 'libjpeg', variants[k % len(variants)], ops)

# --------------------------------------------------------------------------- still images which are to be refused
def broken(s, r, n, variants):
    """PNG images whose data is cut short or does not match its checksums, and JPEG images which have no luma to convert to."""
    # something else than an image of the format: a bit of the signature, or of the header with its checksum, is another
    for k in range(max(16, n // 4)):
        c, d = PNGTYPES[r.integers(len(PNGTYPES))]
        data, at = png(r, int(r.integers(1, 20)), int(r.integers(1, 20)), c, d, bool(r.integers(2)), False)[0], k if k < 8 else int(r.integers(8, 33))
        fid = s.file(data[:at] + bytes([data[at] ^ 1 << int(r.integers(8))]) + data[at + 1:], 'a.png', x={'readers': ['libpng'], 'e': 'err'})
        still(s, r, fid, 'png', 'libpng', variants[k % len(variants)], ['R', 'R'])
    for k in range(n):
        c, d = PNGTYPES[r.integers(len(PNGTYPES))]
        w, h = int(r.integers(1, 20)), int(r.integers(1, 20))
        if k % 4 == 0: w = h = 40       # many chunks worth of data
        data, sums, mx = png(r, w, h, c, d, bool(r.integers(2)), c in (0, 2, 3) and r.random() < .3)
        idat = [(i, struct.unpack('>I', data[i - 4:i])[0]) for i in range(8, len(data) - 4) if data[i:i + 4] == b'IDAT' and chunkat(data, i)]
        z = b''.join(data[i + 4:i + 4 + m] for i, m in idat)
        raw = len(zlib.decompress(z))
        first = idat[0][0] + 4
        if k % 2:       # cut
            # the shortest prefix of the data that holds all of it
            lo = next(m for m in range(len(z) + 1) if len(zlib.decompressobj().decompress(z[:m])) == raw)
            at = 0
            for i, m in idat:
                if lo <= m: at = i + 4 + lo; break
                lo -= m
            cut = int(r.choice([at - 1, first, first - 1, int(r.integers(0, at)), int(r.integers(first, max(first + 1, at)))]))
            dd, e = data[:cut], 'bad' if cut >= first else 'err'
        else:
            i, m = idat[int(r.integers(len(idat)))]
            at = int(r.integers(i + 4, i + 8 + m)) if r.random() < .7 else i + 4 + m + int(r.integers(4))
            dd, e = data[:at] + bytes([data[at] ^ 1 << int(r.integers(8))]) + data[at + 1:], 'bad'
        fid = s.file(dd, 'a.png', x={'readers': ['libpng'], 'w': w, 'h': h, 'd': mx, 'e': e, 'f': []})
        ops = [['R', 'R'], ['R', 'S1', 'R'], ['S0', 'R']][r.integers(3)]
        still(s, r, fid, 'png', 'libpng', variants[k % len(variants)], ops)
    jobs = [('JPEG', [r.integers(0, 256, (int(r.integers(1, 30)), int(r.integers(1, 30)), 4)).astype(np.uint8)], {'mode': 'CMYK', 'quality': 80, 'progressive': bool(r.integers(2))}) for _ in range(max(2, n // 10))]
    for k, (data, _) in enumerate(pil(jobs)):
        fid = s.file(data, 'a.jpg', x={'readers': ['libjpeg'], 'e': 'err'})
        still(s, r, fid, 'jpg', 'libjpeg', variants[k % len(variants)], ['R', 'R'])
        x = bytearray(data); x[k % 2] ^= 1 << int(r.integers(8))
        fid = s.file(bytes(x), 'a.jpg', x={'readers': ['libjpeg'], 'e': 'err'})
        still(s, r, fid, 'jpg', 'libjpeg', variants[k % len(variants)], ['R', 'R'])

def chunkat(d, i):
    """Whether the chunk of a PNG whose name is at i is one, rather than part of another's data."""
    p = 8
    while p + 8 <= len(d):
        if p + 4 == i: return True
        p += 12 + struct.unpack('>I', d[p:p + 4])[0]
    return False

# --------------------------------------------------------------------------- sequences by the general readers
_avgen = []
def video(frames, codec, ext, bf=0, audio=0):
    """Gray frames as a video file."""
    exe = os.path.join(WORK, 'avgen')
    with threading.Lock():
        if not _avgen:
            sh(['gcc', '-O1', '-o', exe, os.path.join(VERIF, 'harness', 'avgen.c'), '-lavformat', '-lavcodec', '-lavutil'], WORK, dict(os.environ), 'avgen')
            _avgen.append(1)
    out = os.path.join(WORK, 'video-%d.%s' % (time.time_ns(), ext))
    h, w = frames[0].shape
    r = subprocess.run([exe, out, codec, str(w), str(h), str(bf), str(audio)], input=b''.join(f.tobytes() for f in frames), stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if r.returncode: raise CheckError('avgen: ' + r.stdout.decode('utf8', 'replace'))
    d = open(out, 'rb').read()
    os.unlink(out)
    return d
VIDEOS = [('libx264', 'mkv'), ('ffv1', 'avi'), ('png', 'mov'), ('libx264', 'mov'), ('ffvhuff', 'nut'), ('jpegls', 'mkv'), ('libx264', 'avi'), ('magicyuv', 'avi'), ('targa', 'mov')]
def videos(s, r, n, variants, ops):
    """Files with other streams, with frames stored in another order, and frames unlike the first."""
    for k in range(n):
        w, h = 2 * int(r.integers(8, 12)), 2 * int(r.integers(8, 12))
        codec, ext = VIDEOS[k % len(VIDEOS)]
        fr = [r.integers(0, 256, (h, w)).astype(np.uint8) for _ in range(int(r.choice([1, 2, 4, 9])))]
        d = video(fr, codec, ext, int(r.integers(0, 4)) if codec == 'libx264' else 0, int(r.integers(0, 3)))
        fid = s.file(d, 'a.' + ext, x=claim(['FFmpeg'], [f.astype(int) for f in fr], 255, 3 if codec == 'libx264' else 0, near=codec == 'libx264'))
        l = ['openr 0 %s FFmpeg 15 %d' % (fid[1], fid[0])] + ['?' + opline(r, o) for o in ops(len(fr))] + ['close 0']
        s.trace(variants[k % len(variants)], l + ['quiesce'])
    for k in range(n):
        w, h = int(r.integers(4, 14)), int(r.integers(4, 14))
        # (FFmpeg goes by the last frame for the size of the stream)
        fr = [r.integers(0, 256, (h, w)).astype(np.uint8) for _ in range(int(r.integers(1, 5)))]
        d = b''.join(gen.pgm(f) for f in fr)
        c = k % 3
        if c == 0:      # another size
            z = pick_size(r, w, h)
            d += gen.pgm(r.integers(0, 256, z).astype(np.uint8)) + d
            x = claim(['FFmpeg'], fr, e='bad')
        elif c == 1:    # another representation of samples, which may be scaled to the range of video
            f = r.integers(0, 256, (h, w)).astype(np.uint8)
            d += b'P6\n%d %d\n255\n' % (w, h) + np.repeat(f[:, :, None], 3, 2).tobytes() + gen.pgm(fr[0])
            x = claim(['FFmpeg'], fr + [f, fr[0]], t=23, near=True)
        else:
            f = r.integers(0, 256, (h, w)).astype(np.uint8)
            d += b'P5\n%d %d\n65535\n' % (w, h) + (f.astype('>u2') * 257).astype('>u2').tobytes() + gen.pgm(fr[0])
            x = claim(['FFmpeg'], fr + [f, fr[0]], t=23, near=True)
        fid = s.file(d, 'a.pgm', x=x)
        l = ['openr 0 %s FFmpeg 15 %d' % (fid[1], fid[0])] + ['?' + opline(r, o) for o in ops(len(fr) + 2)] + ['close 0']
        s.trace(variants[k % len(variants)], l + ['quiesce'])
def longvideos(s, r, n, variants):
    """Many frames that are stored as differences to others, skipped in large steps."""
    for k in range(n):
        m = int(r.integers(66, 180))
        a = r.integers(0, 256, (32, 32 + m))
        fr = [np.ascontiguousarray((a[:16, i:i + 16] + 40 * (i // 30)) % 256).astype(np.uint8) for i in range(m)]
        d = video(fr, 'libx264', ['mkv', 'mov', 'avi'][k % 3], int(r.integers(0, 4)), int(r.integers(0, 3)))
        fid = s.file(d, 'a.' + ['mkv', 'mov', 'avi'][k % 3], x=claim(['FFmpeg'], [f.astype(int) for f in fr], 255, 3, near=True))
        for ops in (['S64', 'R', 'R'], ['S63', 'R', 'R', 'R'], ['R'] * 3 + ['S%d' % r.integers(30, m - 3), 'R', 'S9', 'R'], ['S%d' % (m - 1), 'R', 'R'], ['S%d' % m, 'R'], ['S%d' % (m + 1), 'R'], ['S33'] * 5 + ['R']):
            s.trace(variants[k % len(variants)], ['openr 0 %s FFmpeg 15 %d' % (fid[1], fid[0])] + ['?' + opline(r, o) for o in ops] + ['close 0', 'quiesce'])
def pick_size(r, w, h):
    return [(h, w + int(r.integers(1, 40))), (h, max(1, w - int(r.integers(1, w)))), (h + 1, w), (h - 1, w), (w, h) if w != h else (1, 1)][r.integers(5)]

def sequences(s, r, n, variants, ops):
    """Multi-frame files whose samples survive losslessly, read by FFmpeg and MagickWand; ops(n): operations, or None for reading in bulk."""
    jobs, meta = [], []
    for k in range(n):
        w, h = int(r.integers(2, 14)), int(r.integers(2, 14))
        kind = ['tiff', 'y4m', 'apng', 'tiff', 'pgm', 'y4m'][k % 6]
        nf = int(r.integers(1, 5)) if kind != 'pgm' else 1
        fr = [r.integers(0, 256, (h, w)).astype(np.uint8) for _ in range(nf)]
        if kind in ('tiff', 'apng'):
            for f in fr: f[0, 0], f[-1, -1] = r.integers(0, 256, 2)
            for i in range(1, nf):   # so that no frame is stored in part
                for at in ((0, 0), (-1, -1)):
                    if fr[i][at] == fr[i - 1][at]: fr[i][at] ^= 255
            jobs.append(({'tiff': 'TIFF', 'apng': 'PNG'}[kind], fr, {}))
            meta.append((kind, fr, None))
        elif kind == 'y4m':
            meta.append((kind, fr, gen.y4m_header(w, h, b'mono', b' F25:1 Ip A1:1') + b''.join(gen.y4m_frame(r, w, h, b'mono', b'', f) for f in fr)))
        else:
            meta.append((kind, fr, gen.pgm(fr[0])))
    enc = iter(pil(jobs))
    for k, (kind, fr, data) in enumerate(meta):
        if data is None: data = next(enc)[0]
        readers = {'tiff': ['MagickWand'], 'y4m': ['FFmpeg'], 'apng': ['FFmpeg'], 'pgm': ['FFmpeg', 'MagickWand']}[kind]
        fid = s.file(data, 'a.' + kind, x=claim(readers, [f.astype(int) for f in fr]))
        rd = readers[r.integers(len(readers))]
        if ops is None:
            if kind in ('y4m', 'pgm'): continue
            # that it is MagickWand or FFmpeg depends on what they claim to support, but both must be consistent
            s.trace(variants[k % len(variants)], ['readimg %s NULL %d' % (fid[1], fid[0]), 'quiesce'])
        else:
            l = ['openr 0 %s %s %d %d' % (fid[1], rd, 15, fid[0])] + ['?' + opline(r, o) for o in ops(len(fr))] + ['close 0']
            s.trace(variants[k % len(variants)], l + ['quiesce'])

# --------------------------------------------------------------------------- files of known type
def typed(s, r):
    p8 = r.integers(0, 256, (3, 4)).astype(np.uint8)
    d, sums, mx = png(r, 4, 3, 2, 8, False, False)
    (jd, jl), = pil([('JPEG', [r.integers(0, 256, (9, 10)).astype(np.uint8)], {'quality': 90})])
    f = native(r, 'PFM', n=1, special=0, plain=True)
    y = native(r, 'Y4M', n=2, csp=b'420')
    # (a 16-bit PGM is read by the general readers, but not by resdet's own)
    return [(1, gen.pgm(p8), 'pgm', None), (2, b'P5\n4 3\n1000\n' + r.integers(0, 1001, 12).astype('>u2').tobytes(), 'pgm', None),
            (3, f.data, 'pfm', None), (4, y.data, 'y4m', None), (5, d, 'png', claim(['libpng'], [sums], mx)), (6, jd, 'jpg', claim(['libjpeg'], [jl], 255, 1))]

# --------------------------------------------------------------------------- damage
def mutate(r, d, n=None, lo=0, hi=None):
    d = bytearray(d)
    for _ in range(n or int(r.integers(1, 5))):
        if not d: break
        i = int(r.integers(lo, min(len(d), hi or len(d)))) if min(len(d), hi or len(d)) > lo else 0
        c = r.integers(7)
        if c == 0: d[i] ^= 1 << r.integers(8)
        elif c == 1: d[i] = r.integers(256)
        elif c == 2: del d[i:i + int(r.integers(1, 5))]
        elif c == 3: d[i:i] = bytes(int(x) for x in r.integers(0, 256, int(r.integers(1, 4))))
        elif c == 4: d[i:i] = d[i:i + int(r.integers(1, 9))]
        elif c == 5: d = d[:i]
        elif c == 6: d[i] = int(r.choice([0, 255, 10, 32, 48, 57, 35, 45]))
    return bytes(d)

def damaged(s, r, n, variants):
    jobs = [('JPEG', [r.integers(0, 256, (20, 20) if k % 2 else (17, 24, 3)).astype(np.uint8)], {'quality': 80, 'progressive': k % 4 < 2}) for k in range(8)]
    jobs += [('TIFF', [r.integers(0, 256, (5, 6)).astype(np.uint8) for _ in range(2)], {})]
    enc = pil(jobs)
    base = [('jpg', d) for d, _ in enc[:8]] + [('png', png(r, int(r.integers(1, 20)), int(r.integers(1, 20)), *PNGTYPES[r.integers(len(PNGTYPES))], bool(r.integers(2)), bool(r.integers(2)))[0]) for _ in range(16)]
    for k in range(n):
        e, d = base[r.integers(len(base))]
        if r.random() < .4: d = d[:int(r.integers(0, len(d)))]
        else:
            d = mutate(r, d)
            if e == 'png' and r.random() < .7: d = fixcrc(d)
        if toolarge(e, d): continue
        fid = s.file(d, 'a.' + e)
        rd = {'png': 'libpng', 'jpg': 'libjpeg'}[e]
        l = ['openr 0 %s %s 15 %d' % (fid[1], rd, fid[0]), '?read 0 g', '?read 0 b', '?seek 0 1 1', '?read 0 g', 'close 0', 'readimg %s %s %d' % (fid[1], e, fid[0]), 'quiesce']
        s.trace(variants[k % len(variants)], l)
    # what the general readers read, cut short
    e, d = 'tiff', enc[8][0]
    y = native(r, 'Y4M', n=3, csp=b'mono', w=6, h=5).data
    for k in range(n // 10):
        for rd, ext, dd in (('MagickWand', 'tiff', d), ('FFmpeg', 'y4m', y)):
            fid = s.file(dd[:int(r.integers(0, len(dd)))], 'a.' + ext)
            s.trace(variants[k % len(variants)], ['openr 0 %s %s 15 %d' % (fid[1], rd, fid[0]), '?read 0 g', '?read 0 g', '?seek 0 1 1', '?read 0 g', 'close 0', 'quiesce'])

def toolarge(e, d):
    if e == 'png' and len(d) > 24:
        w, h = struct.unpack('>II', d[16:24])
        return w * h > 4000000
    if e == 'jpg':
        for i in range(len(d) - 9):
            if d[i] == 255 and d[i + 1] in (0xc0, 0xc1, 0xc2, 0xc9, 0xca):
                h, w = struct.unpack('>HH', d[i + 5:i + 9])
                if w * h > 4000000: return True
    return False

def fixcrc(d):
    """Recomputes the checksums of the chunks of a damaged PNG, so that it is not rejected for them alone."""
    out, i = d[:8], 8
    while i + 8 <= len(d):
        n = struct.unpack('>I', d[i:i + 4])[0]
        if n > len(d) - i - 12: break
        out += d[i:i + 8 + n] + struct.pack('>I', zlib.crc32(d[i + 4:i + 8 + n]))
        i += 12 + n
    return out + d[i:]

def limits(s, r, variants):
    """Images around the pixel limits, of the formats of other libraries."""
    sz = [(6, 8), (7, 7), (48, 1), (49, 1), (1, 48), (1, 49), (12, 8), (97, 1), (14, 7), (9, 5), (10, 5), (96, 1), (5, 19), (5, 20)]
    jobs = [('JPEG', [r.integers(0, 256, (h, w)).astype(np.uint8)], {'quality': 95}) for w, h in sz] + [('TIFF', [r.integers(0, 256, (h, w)).astype(np.uint8)] * 1, {}) for w, h in sz]
    enc = pil(jobs)
    for v in variants:
        for k, (w, h) in enumerate(sz):
            fs = []
            d, sums, mx = png(r, w, h, 0, 8, False, False)
            fs.append(('png', 'libpng', s.file(d, 'a.png', x=claim(['libpng'], [sums], mx))))
            fs.append(('jpg', 'libjpeg', s.file(enc[k][0], 'a.jpg', x=claim(['libjpeg'], [enc[k][1]], 255, 1))))
            if v == 'pmax':
                fs.append(('tiff', 'MagickWand', s.file(enc[len(sz) + k][0], 'a.tiff', x=claim(['MagickWand'], [jobs[len(sz) + k][1][0].astype(int)]))))
                fr = r.integers(0, 256, (h, w)).astype(np.uint8)
                fs.append(('y4m', 'FFmpeg', s.file(gen.y4m_header(w, h, b'mono', b' F25:1 Ip A1:1') + gen.y4m_frame(r, w, h, b'mono', b'', fr), 'a.y4m', x=claim(['FFmpeg'], [fr.astype(int)]))))
            l = []
            for e, rd, fid in fs:
                l += ['openr 0 %s %s %d %d' % (fid[1], rd, 15, fid[0]), '?read 0 g', '?read 0 g', 'close 0']
                if e in ('png', 'jpg'): l += ['readimg %s NULL %d' % (fid[1], fid[0]), 'open 0 %s NULL 14 %d' % (fid[1], fid[0]), '?read 0 g', 'close 0']
            s.trace(v, l + ['quiesce'])

# --------------------------------------------------------------------------- headers, right and wrong
NUMS = [b'0', b'00', b'1', b'2', b'3', b'7', b'010', b'-1', b'+3', b'', b'x', b'3x', b'0x10', b'1e3', b'3.5', b'99999999999', b'4294967297', b'4294967298', b'2147483648', b'65537', b'18446744073709551617', b'256', b'.', b'#3', b'3#', b'\xb2']
MAXV = NUMS + [b'255', b'256', b'254', b'1', b'65535', b'65536', b'65791', b'512', b'300', b'4294967551', b'4294967296', b'127', b'0255', b'255.0', b'-255', b'18446744073709551871']
SCALES = [b'1', b'-1', b'0', b'0.0', b'-0', b'1.0', b'-1.0', b'+1', b'1e3', b'-1e-3', b'inf', b'nan', b'-inf', b'', b'x', b'1x', b'-', b'.', b'-.5', b'.5', b'5.', b'1,0', b'0x1p3', b'--1', b'-255.5', b'1 ', b'00001', b'-0.0001']
SEPS = [b' ', b'\n', b'\t', b'\r', b'\r\n', b'  ', b'\n\n', b'\x0b', b'\x0c', b'', b'\0', b',', b'\xa0', b'\n#c\n', b' #c\n', b'#c\n', b' # c']
def headers(r, n):
    from suites import LONGTAG
    def num(v, p=.85): return (b'%d' % v) if r.random() < p else NUMS[r.integers(len(NUMS))]
    def sep(p=.8): return [b' ', b'\n'][r.integers(2)] if r.random() < p else SEPS[r.integers(len(SEPS))]
    for k in range(n):
        c = k % 6
        fmt = ['PGM', 'PFM', 'Y4M'][(k // 6) % 3]
        ext = fmt.lower()
        w, h = small(r, 4), small(r, 4)
        if c == 0:
            f = native(r, fmt, mx=4); yield ext, f.data
        elif c == 1:     # bytes changed in the header
            f = native(r, fmt, mx=4); yield ext, mutate(r, f.data, int(r.integers(1, 3)), 0, f.start + 1)
        elif c == 2:     # bytes changed anywhere; headers of later frames
            f = native(r, fmt, n=3, mx=3)
            if r.random() < .5 and f.n > 1:
                at = f.ends[int(r.integers(f.n - 1))]
                yield ext, f.data[:at] + mutate(r, f.data[at:], 1, 0, 14)
            else: yield ext, mutate(r, f.data)
        elif c == 3:     # cut short in the header, or empty
            f = native(r, fmt, mx=4); yield ext, f.data[:int(r.integers(0, f.start + 1))]
        else:            # fields of all kinds
            if fmt == 'PGM':
                m = [b'P5'] * 12 + [b'P2', b'P6', b'P4', b'P55', b'p5', b'Pf', b'5P', b'P', b' P5', b'', b'P7', b'\x89PNG']
                mv = b'255' if r.random() < .5 else MAXV[r.integers(len(MAXV))]
                d = m[r.integers(len(m))] + sep(.6) + (b'' if r.random() < .7 else COMMENTS[r.integers(len(COMMENTS))]) + num(w) + sep() + num(h) + sep() + mv + (b'\n' if r.random() < .7 else sep(.4))
                yield ext, d + bytes(int(x) for x in r.integers(0, 256, int(r.choice([w * h, w * h, w * h + 5, max(0, w * h - 1), 0]))))
            elif fmt == 'PFM':
                m = [b'Pf'] * 9 + [b'PF'] * 3 + [b'PG', b'pf', b'P5', b'Pf4', b'PF4', b'P', b'', b'fP']
                sc = [b'-1.0', b'1.0'][r.integers(2)] if r.random() < .4 else SCALES[r.integers(len(SCALES))]
                d = m[r.integers(len(m))] + sep(.6) + (b'' if r.random() < .7 else COMMENTS[r.integers(len(COMMENTS))]) + num(w) + sep() + num(h) + sep() + sc + (b'\n' if r.random() < .7 else sep(.4))
                yield ext, d + bytes(4 * w * h * int(r.integers(0, 4)))
            else:
                m = [b'YUV4MPEG2 '] * 9 + [b'YUV4MPEG2\n', b'YUV4MPEG2', b'YUV4MPEG ', b'YUV4MPEG3 ', b'yuv4mpeg2 ', b'', b'YUV4MPEG2  ']
                odd = [b'', b'mono', b'mono7', b'mono8', b'mono16', b'mono17', b'mono255', b'monox', b'420', b'421', b'42', b'4', b'', b'420p', b'420p7', b'420p8', b'420p16', b'420p17', b'420p0', b'420p264', b'420p272', b'420x', b'420jpeg', b'420paldv', b'420mpeg2',
                       b'411', b'411p12', b'422', b'444', b'444alpha', b'444alph', b'422alpha', b'440', b'400', b'gray', b'rgb', b'420p010', b'444p9', b'410', b'Mono', b'420jpegx', b'422p10x', b'mono' + b'0' * 40 + b'9', b'420jpeg' + b'x' * 40, b'x' * 70, b'420p1' + b'0' * 40]
                tags = []
                if r.random() < .93: tags.append(b'W' + num(w))
                if r.random() < .93: tags.append(b'H' + num(h))
                cs = None
                if r.random() < .7:
                    cs = odd[r.integers(len(odd))] if r.random() < .7 else (CSPS[r.integers(len(CSPS))] or b'420')
                    tags.append(b'C' + cs)
                tags += [TAGS[i] for i in r.permutation(len(TAGS))[:r.integers(0, 4)]]
                if r.random() < .1: tags.append([b'W5', b'H5', b'Cmono', b'W', b'H', b'C', b'X' * 300, LONGTAG[r.integers(len(LONGTAG))]][r.integers(8)])
                tags = [tags[i] for i in r.permutation(len(tags))]
                d = m[r.integers(len(m))] + (b' ' if r.random() < .9 else r.choice([b'  ', b'\t', b'\r', b'\x0c'])).join(tags) + r.choice([b'\n', b'\n', b'\n', b'\n', b' \n', b'\r\n', b'', b'\n\n'])
                size = int(r.choice([0, w * h, w * h * 3, 40]))
                for _ in range(int(r.integers(0, 3))):
                    try: d += gen.y4m_frame(r, w, h, cs) if cs is None or cs in CSPS else b'FRAME\n' + bytes(size)
                    except Exception: d += b'FRAME\n' + bytes(size)
                if r.random() < .2: d += r.choice([b'FRAME', b'FRAM', b'FRAMES\n', b'FRAME Ip\n', b'frame\n', b'\n', b'F'])
                yield ext, d
