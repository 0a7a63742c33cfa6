"""The checks of reading."""
from core import *
import gen, suites, formats
from suites import *
from formats import png, pil, claim
from checks import check, q, CHECKS
import itertools

NV = ['fftw', 'bare', 'kasan']
def pick(r, l):
    return l[r.integers(len(l))]

def modelfiles(ck, r, n):
    """The files MCFormats describes: all with at most one unusual field, and n of the others."""
    out = ck.model('MCFormats', cfg=os.path.join(SPEC, 'mc', 'MCFormats3.cfg') if THOROUGH else None)
    few, more = [], []
    for m in re.finditer(r'^"FILE (\w+) (\d+) <<([^>]*)>>"', out, re.M):
        x = (m.group(1).lower(), bytes(int(b) for b in m.group(3).split(',') if b.strip()))
        (few if int(m.group(2)) < 2 else more).append(x)
    if len(few) < 200 or len(more) < 5000: raise CheckError('MCFormats: %d and %d files' % (len(few), len(more)))
    few.sort(); more.sort()
    return few + [more[i] for i in r.permutation(len(more))[:n]]

def grouped(l, n):
    return [l[i:i + n] for i in range(0, len(l), n)]

@check('R01')
def R01(ck):
    out = ck.model('GenReader', workers=1)
    hist = sorted({(n, t, s, 'R' * sum(1 for o in ops if o == 'R')) for n, t, s, ops in histories(out) if all(o == 'R' for o in ops)})
    r = gen.rng(SEED, 'R01')
    s = ck.suite('r01')
    for _ in range(q(3, 20)):
        replay_histories(s, r, [(n, t, st, list(o)) for n, t, st, o in hist], NV, ('file', 'pipe', 'stdinfile', 'stdinpipe'), probe=('R', 'R', 'R'))
    for k in range(q(150, 900)):
        f = native(r)
        walk(s, r, f, [pick(r, NV)], ['R'] * (f.n + int(r.integers(1, 5))), ('file', 'file', 'pipe', 'stdinfile', 'stdinpipe'))
    # many frames, and frames larger than the buffers of stdio
    for k in range(q(6, 40)):
        f = native(r, ['PFM', 'Y4M'][k % 2], n=int(r.integers(20, 80)), w=small(r, 3), h=small(r, 3))
        walk(s, r, f, [pick(r, NV)], ['R'] * (f.n + 2), ('file', 'pipe'))
    for k in range(q(6, 40)):
        f = native(r, ['PFM', 'Y4M', 'PGM'][k % 3], n=3, w=int(r.integers(30, 70)), h=int(r.integers(30, 70)), csp=[None, b'420p10', b'444'][r.integers(3)])
        walk(s, r, f, [pick(r, NV)], ['R'] * (f.n + 2), ('file', 'pipe'))
    # very many frames
    for k in range(q(4, 10)):
        n = int(pick(r, [1, 2, 3]))
        fid, path, e, N = many(s, r, ['PFM', 'Y4M'][k % 2], [66000, 33333, 22222][n - 1] + int(r.integers(100)), n=n)
        pre, src = source(r, path, ('file', 'pipe'))
        s.trace(pick(r, NV), pre + [openline(r, src, e, fid), 'readn 0 %d' % (N - 2)] + ['read 0 g'] * 4 + ['close 0', 'quiesce'])
        s.trace(pick(r, NV), [openline(r, path, e, fid), 'readn 0 65535', 'read 0 g', 'read 0 b', 'readn 0 %d' % (N - 65537), 'read 0 g', 'close 0', 'quiesce'])
    # one-pixel-wide and -high, and two handles on one file
    for k in range(q(20, 100)):
        f = native(r, w=1 if k % 2 else None, h=None if k % 2 else 1)
        fid = s.file(f.data, 'a.' + f.ext)
        l = [openline(r, fid[1], f.ext, fid[0], 0), openline(r, fid[1], f.ext, fid[0], 1)]
        for _ in range(2 * f.n + 4): l.append(opline(r, 'R', int(r.integers(2))))
        s.trace(pick(r, NV), l + ['close 1', 'close 0', 'quiesce'])
    # the readers of other formats, on still and multi-frame images
    formats.sequences(s, r, q(12, 60), ['fftw', 'kiss'], lambda n: ['R'] * (n + 2))
    formats.videos(s, r, q(9, 60), ['fftw', 'kiss'], lambda n: ['R'] * (n + 2))
    ck.run(s)

@check('R02')
def R02(ck):
    out = ck.model('GenReader', workers=1)
    hist = histories(out)
    r = gen.rng(SEED, 'R02')
    s = ck.suite('r02')
    for _ in range(q(1, 6)):
        replay_histories(s, r, hist, NV, ('file', 'file', 'pipe'))
    # further ones on longer sequences, with any offsets
    for k in range(q(120, 1000)):
        n = int(r.integers(0, 12))
        f = native(r, ['PFM', 'Y4M'][r.integers(2)] if n != 1 else None, n=max(n, 1) if k % 2 else n, mx=5)
        ops = []
        for _ in range(int(r.integers(2, 14))):
            ops.append('R' if r.random() < .4 else 'S%d' % r.choice([0, 1, 1, 2, 3, 4, 5, n, n + 1, 4294967296, 4294967297, 18446744073709551615, 9223372036854775808], p=[.1, .15, .15, .15, .1, .1, .05, .08, .06, .02, .02, .01, .01]))
        walk(s, r, f, [pick(r, NV)], ops + ['R', 'R'], ('file', 'file', 'pipe', 'stdinfile', 'stdinpipe'))
    # very many frames
    for k in range(q(4, 10)):
        n = int(pick(r, [1, 2, 3]))
        fid, path, e, N = many(s, r, ['PFM', 'Y4M'][k % 2], [66000, 33333, 22222][n - 1] + int(r.integers(100)), n=n)
        for j in (65535, 65536, 65537, N - 1, N, N + 1, 257):
            pre, src = source(r, path, ('file', 'pipe')) if j == N - 1 else ([], path)
            s.trace(pick(r, NV), pre + [openline(r, src, e, fid)] + (['readn 0 %d' % (N - 400)] if j == 257 else []) + ['seek 0 %d %d' % (j, r.integers(2)), 'read 0 g', 'seek 0 1 1', 'read 0 b', 'close 0', 'quiesce'])
    # across the buffers of stdio
    for k in range(q(8, 60)):
        f = native(r, ['PFM', 'Y4M'][k % 2], n=5, w=int(r.integers(20, 50)), h=int(r.integers(20, 50)), csp=[None, b'420p10', b'444'][r.integers(3)])
        ops = [pick(r, ['R', 'S1', 'S2', 'S0']) for _ in range(5)]
        walk(s, r, f, [pick(r, NV)], ops + ['R', 'R'], ('file', 'pipe'))
    # frames of more bytes than 31 or 32 bits hold, which are only skipped
    for k in range(q(8, 24) if roomy() else 0):
        (fid, path), fmt, n = huge(s, r, k)
        for j in (1, n - 1, n, n + 1):
            s.trace(pick(r, ['bare', 'fftw']), ['openr 0 %s %s 14 %d' % (path, fmt, fid), 'seek 0 %d 1' % j] + ['seek 0 1 %d' % (m % 2) for m in range(n + 1)] + ['close 0', 'quiesce'])
    formats.sequences(s, r, q(24, 120), ['fftw', 'kiss'], lambda n: [pick(r, ['R', 'R', 'S0', 'S1', 'S1', 'S2', 'S3', 'S9']) for _ in range(n + 4)])
    formats.videos(s, r, q(18, 90), ['fftw', 'kiss'], lambda n: [pick(r, ['R', 'R', 'S0', 'S1', 'S1', 'S2', 'S9']) for _ in range(n + 3)])
    formats.longvideos(s, r, q(3, 12), ['fftw', 'kiss'])
    ck.run(s)

@check('R03')
def R03(ck):
    r = gen.rng(SEED, 'R03')
    s = ck.suite('r03')
    # every colorspace at every small size: luma exactly, and the next frame where it should be
    sz = list(itertools.product(range(1, q(4, 7)), range(1, q(4, 6))))
    for c in CSPS:
        for w, h in sz + [(int(r.integers(5, 14)), int(r.integers(5, 14)))]:
            f = native(r, 'Y4M', n=3, w=w, h=h, csp=c)
            walk(s, r, f, [pick(r, NV)], [['R', 'R', 'R', 'R'], ['S1', 'R', 'R', 'R'], ['R', 'S1', 'R', 'R'], ['S2', 'R', 'R']][r.integers(4)], ('file', 'file', 'pipe'))
    # every value of a sample
    for m in q([1, 2, 3, 5, 100, 127, 128, 254, 255], range(1, 256)):
        v = np.arange(0, m + 1, dtype=np.uint8)
        v = np.concatenate([v, np.zeros((-len(v)) % 16, np.uint8)]).reshape(-1, 16)
        fid = s.file(gen.pgm(v, m), 'a.pgm')
        s.trace(pick(r, NV), [openline(r, fid[1], 'pgm', fid[0]), 'read 0 g', 'read 0 b', 'close 0', 'quiesce'])
    for d in range(8, 17):
        for c in (b'mono', b'420p' if d > 8 else b'420'):
            cc = c + (b'' if d == 8 else b'%d' % d)
            mx = (1 << d) - 1
            v = np.unique(np.concatenate([np.arange(0, min(mx, 300) + 1), r.integers(0, mx + 1, 400), 1 << np.arange(d), (1 << np.arange(d)) - 1, mx - np.arange(20), [256, 255, 257]]).clip(0, mx))
            v = np.concatenate([v, np.zeros((-len(v)) % 20, int)]).reshape(-1, 20)
            data = gen.y4m_header(20, len(v), cc) + gen.y4m_frame(r, 20, len(v), cc, b'', v) + gen.y4m_frame(r, 20, len(v), cc, b'', v[::-1])
            fid = s.file(data, 'a.y4m')
            s.trace(pick(r, NV), [openline(r, fid[1], 'y4m', fid[0]), 'read 0 g', 'read 0 b', 'read 0 g', 'close 0', 'quiesce'])
    # floats of all kinds, in both byte orders, gray and color
    for k in range(q(60, 400)):
        w, h = small(r, 12), small(r, 12)
        if k % 3 == 2:
            frames = [r.integers(-2000000, 2000001, (h, w, 3)) if r.random() < .5 else r.integers(-20, 21, (h, w, 3)) for _ in range(2)]
            data = b''.join(gen.pfm_frame(p.astype(np.float32), bool(r.integers(2))) for p in frames)
        else:
            frames = [r.integers(0, 2**32, (h, w), dtype=np.uint64).astype(np.uint32).view(np.float32) if r.random() < .6 else pfm_pixels(r, w, h, False, .5) for _ in range(2)]
            data = b''.join(gen.pfm_frame(p, bool(r.integers(2))) for p in frames)
        fid = s.file(data, 'a.pfm')
        s.trace(pick(r, NV), [openline(r, fid[1], 'pfm', fid[0]), 'read 0 g', 'read 0 b', 'read 0 g', 'close 0', 'quiesce'])
    ck.run(s)

@check('R04')
def R04(ck):
    r = gen.rng(SEED, 'R04')
    s = ck.suite('r04')
    # the files of the model: all with one unusual field and, of those with two, a sample
    for group in grouped(modelfiles(ck, r, q(1400, 30000)), 8):
        l = []
        for ext, data in group:
            fid = s.file(data, 'a.' + ext)
            pre, src = source(r, fid[1], ('file', 'file', 'pipe', 'stdinfile'))
            l += pre + [openline(r, src, ext, fid[0]), '?read 0 g', '?read 0 g', '?read 0 g', 'close 0']
            if r.random() < .3: l += ['readimg %s NULL %d' % (fid[1], fid[0])]
            if r.random() < .3: l += [openline(r, fid[1], ext, fid[0]), '?seek 0 1 1', '?read 0 g', 'close 0']
        s.trace(['kasan', 'bare'][r.integers(2)], l + ['quiesce'])
    for ext, data in formats.headers(r, q(900, 8000)):
        fid = s.file(data, 'a.' + ext)
        how = pick(r, ['open', 'open', 'open', 'readimg'])
        if how == 'readimg':
            l = ['readimg %s %s %d' % (fid[1], pick(r, ['NULL', ext]), fid[0])]
        else:
            pre, src = source(r, fid[1], ('file', 'file', 'file', 'pipe', 'stdinfile'))
            l = pre + [openline(r, src, ext, fid[0])]
        s.trace(['kasan', 'bare', 'kasan', 'asan'][r.integers(4)], l + (['?read 0 g', '?read 0 b', '?read 0 g', '?seek 0 1 1', '?read 0 g', 'close 0'] if how == 'open' else []) + ['quiesce'])
    ck.run(s)

@check('R05')
def R05(ck):
    r = gen.rng(SEED, 'R05')
    s = ck.suite('r05')
    # the histories of the model, on real files cut or continued like its
    S = [x for x in suites.streams(ck)]
    S = [S[k] for k in r.permutation(len(S))[:q(3000, 30000)]]
    for k in range(0, len(S), 6):
        l = []
        for fmt, pieces, ops in S[k:k + 6]:
            f = suites.pieced(r, fmt, pieces)
            fid = s.file(f.data, 'a.' + f.ext)
            pre, src = source(r, fid[1], ('file', 'file', 'pipe', 'stdinfile'))
            l += pre + [openline(r, src, f.ext, fid[0])] + ['?' + opline(r, o) for o in ops] + ['?read 0 g', 'close 0']
        s.trace(pick(r, ['bare', 'kasan', 'bare']), l + ['quiesce'])
    pats = [['R'], ['S1', 'R', 'R'], ['S2', 'R', 'R'], ['S9', 'R', 'R'], ['R', 'S1', 'R', 'R'], ['R', 'S2', 'R', 'R'], ['S1', 'S1', 'R', 'R'], ['R', 'R', 'S1', 'R']]
    for k in range(q(12, 60)):
        f = native(r, ['PGM', 'PFM', 'Y4M'][k % 3], n=[1, 2, 3][r.integers(3)], mx=3)
        for cut in range(len(f.data)):
            fid = s.file(f.data[:cut], 'a.' + f.ext)
            l = []
            # all patterns of one cut in one trace
            ps = [['R'] * (f.n + 3)] + [pats[j] for j in r.permutation(len(pats))[:q(2, 6)]]
            for p in ps:
                pre, src = source(r, fid[1], ('file', 'file', 'pipe', 'stdinfile'))
                l += pre + [openline(r, src, f.ext, fid[0])] + ['?' + opline(r, o) for o in p] + ['close 0']
            if r.random() < .3:
                l += ['readimg %s NULL %d' % (fid[1], fid[0])]
            s.trace(pick(r, ['bare', 'fftw', 'kasan', 'bare']), l + ['quiesce'])
    # a few bytes after the last frame, of each kind
    short = [b'\n', b'\0', b' ', b'\r', b'\xff', b'\x1a', b'#', b'F', b'P', b'f', b'X', b'\r\n', b'\n\n', b' \n', b'\n\0', b'\n' * 3, b'\n' * 4, b'\n' * 5, b'\n' * 6, b'\0' * 4, b'\0' * 5, b'\0' * 8, b'FRAM', b'FRAME', b'FRAME ', b'FRAM\n', b'\nFRAME\n', b'frame\n',
             b'P\n', b'Pf', b'Pf\n', b'PF\n', b'P5\n', b'#\n', b'# end\n', b'EOF\n', b'END', b'YUV4MPEG2\n']
    for fmt in ('PFM', 'Y4M'):
        for n in (0, 1, 3) if fmt == 'Y4M' else (1, 3):
            f = native(r, fmt, n=n, mx=3)
            for t in short:
                fid = s.file(f.data + t, 'a.' + f.ext)
                l = []
                for p in (['R'] * (n + 2), ['S%d' % (n + 1), 'R'], ['S%d' % n, 'R', 'R'], ['S1'] * (n + 2)):
                    pre, src = source(r, fid[1], ('file', 'file', 'pipe', 'stdinfile'))
                    l += pre + [openline(r, src, f.ext, fid[0])] + ['?' + opline(r, o) for o in p] + ['close 0']
                s.trace(pick(r, ['bare', 'fftw', 'kasan']), l + (['readimg %s NULL %d' % (fid[1], fid[0])] if r.random() < .3 else []) + ['quiesce'])
    # frames beyond the buffer of stdio, cut around its boundaries
    for k in range(q(4, 20)):
        f = native(r, ['PFM', 'Y4M'][k % 2], n=3, w=int(r.integers(25, 40)), h=int(r.integers(25, 40)), csp=[None, b'420p10', b'444'][r.integers(3)])
        cuts = {4096, 4095, 4097, 8192, 8191, len(f.data) - 1} | {e + d for e in f.ends for d in (-1, 0, 1, 3)} | {int(x) for x in r.integers(f.start, len(f.data), 6)}
        for cut in cuts:
            if cut >= len(f.data): continue
            fid = s.file(f.data[:cut], 'a.' + f.ext)
            l = []
            for p in (['S1', 'R', 'R'], ['R', 'S2', 'R'], ['S9', 'R']):
                pre, src = source(r, fid[1], ('file', 'pipe'))
                l += pre + [openline(r, src, f.ext, fid[0])] + ['?' + opline(r, o) for o in p] + ['close 0']
            s.trace(pick(r, ['bare', 'kasan']), l + ['quiesce'])
    # and frames of more bytes than 31 or 32 bits hold
    for k in range(q(12, 60) if roomy() else 0):
        (fid, path), fmt, n = huge(s, r, k, True)
        s.trace(pick(r, ['bare', 'fftw']), ['openr 0 %s %s 14 %d' % (path, fmt, fid)] + ['seek 0 1 %d' % (m % 2) for m in range(n)] + ['seek 0 %d 1' % r.integers(1, 4), 'close 0', 'quiesce'])
    ck.run(s)

@check('R06')
def R06(ck):
    r = gen.rng(SEED, 'R06')
    s = ck.suite('r06')
    kinds = ['file', 'pipe', 'stdinfile', 'stdinpipe']
    # the histories of the model, on each kind of source
    S = [x for x in suites.streams(ck)]
    for k in r.permutation(len(S))[:q(1000, 10000)]:
        fmt, pieces, ops = S[k]
        f = suites.pieced(r, fmt, pieces)
        fid = s.file(f.data, 'a.' + f.ext)
        l = []
        for kind in kinds:
            pre, src = source(r, fid[1], (kind,))
            l += pre + [openline(r, src, f.ext, fid[0])] + ['?' + opline(r, o) for o in ops] + ['?read 0 g', 'close 0']
        s.trace(pick(r, ['bare', 'kasan', 'bare']), l + ['quiesce'])
    for k in range(q(100, 700)):
        c = r.integers(4)
        f = native(r) if c < 2 else tailed(r, int(r.integers(0, 4)), pick(r, ['eof', 'trunc', 'bad']), r.random() < .2)
        ops = [pick(r, READOPS + ['R']) for _ in range(int(r.integers(1, 7)))] + ['R', 'R']
        fid = s.file(f.data, 'a.' + f.ext)
        v = pick(r, ['bare', 'kasan', 'fftw'])
        # the same calls on every kind of source, and with every chunking
        l = []
        for kind in kinds + ['pipe', 'stdinpipe']:
            pre, src = source(r, fid[1], (kind,))
            l += pre + [openline(r, src, f.ext, fid[0])] + ['?' + opline(r, o) for o in ops] + ['close 0', 'quiesce']
        for kind in kinds:
            pre, src = source(r, fid[1], (kind,))
            l += pre + ['readimg %s %s %d' % (src, f.ext if kind != 'file' else 'NULL', fid[0]), 'quiesce']
        s.trace(v, l)
    for k in range(q(10, 60)):
        f = native(r, ['PFM', 'Y4M', 'PGM'][k % 3], n=4, w=int(r.integers(20, 40)), h=int(r.integers(20, 40)), csp=[None, b'420p10', b'444'][r.integers(3)])
        fid = s.file(f.data, 'a.' + f.ext)
        ops = [pick(r, ['R', 'S1', 'S2']) for _ in range(3)] + ['R', 'R']
        l = []
        for kind in kinds:
            pre, src = source(r, fid[1], (kind,))
            l += pre + [openline(r, src, f.ext, fid[0])] + [opline(r, o) for o in ops] + ['close 0', 'quiesce']
        s.trace(pick(r, ['bare', 'kasan', 'fftw']), l)
    # the readers of other formats leave standard input open as well
    for k in range(q(12, 60)):
        d, sums, mx = png(r, small(r), small(r), int(pick(r, [0, 2, 3, 6])), 8, r.random() < .5, r.random() < .3)
        jd, jl = pil([('JPEG', [r.integers(0, 256, (small(r), small(r))).astype(np.uint8)], {'quality': 90})])[0]
        for data, ext, rd, x in ((d, 'png', 'libpng', claim(['libpng'], [sums], mx)), (jd, 'jpg', 'libjpeg', claim(['libjpeg'], [jl], 255, 1))):
            l = []
            for cut in [len(data), int(r.integers(0, 60)), len(data) - int(r.integers(1, 40)), 0]:
                fid = s.file(data[:cut], 'a.' + ext, x=x if cut == len(data) else None)
                for kind in ('stdinfile', 'stdinpipe'):
                    pre, src = source(r, fid[1], (kind,))
                    l += pre + [pick(r, ['open 0 - %s 15 %d' % (ext, fid[0]), 'openr 0 - %s 15 %d' % (rd, fid[0])])] + ['?' + opline(r, pick(r, ['R', 'R', 'S1']))] + ['?read 0 g', '?read 0 g', 'close 0', 'quiesce']
                    if k % 3 == 0: l += pre + ['readimg - %s %d' % (ext, fid[0]), 'quiesce']
            s.trace(pick(r, ['fftw', 'img', 'asan']), l)
    ck.run(s)

def nearmisses(names):
    """Names that differ from those given in one character or the number of them."""
    res = []
    for e in names:
        for i, ch in enumerate(e):
            res += [e[:i] + chr(ord(c) ^ b) + e[i + 1:] for c in {ch, ch.lower(), ch.upper()} for b in (1, 2, 16, 32, 64)] + [e[:i] + e[i + 1:], e[:i] + ch + e[i:]]
    known = {e.lower() for e in names}
    return sorted({e for e in res if e.lower() not in known and e not in ('', 'NULL', 'EMPTY') and '/' not in e and all(0x20 < ord(c) < 0x7f or ord(c) == 0x14 for c in e)})

@check('R07')
def R07(ck):
    r = gen.rng(SEED, 'R07')
    s = ck.suite('r07')
    V = ['fftw', 'bare', 'omit', 'noff', 'nomw', 'img']
    F = formats.typed(s, r)
    exts = ['pgm', 'pfm', 'y4m', 'png', 'jpg', 'jpeg', 'xyz', 'pg', 'pgmm', 'ppm', '', 'p.gm']
    def case(x):
        return ''.join(ch.upper() if r.random() < .5 else ch for ch in x)
    mimes = ['image/jpeg', 'image/png', 'image/x-portable-graymap', 'image/x-portable-floatmap', 'video/yuv4mpeg', 'image/pgm', 'image/jpg', 'image/', '/', '/pgm', 'pgm/', 'text/plain', 'image/gif', '.pgm', '.png', 'a.pfm', '*.y4m', 'pgm,pfm', '_pgm']
    names = ['a.%s', 'a.b.%s', '.%s', 'a', 'pgm', 'a.', 'a.xyz.%s', 'a.%s.xyz', 'a%s', 'a b.%s'.replace(' ', '_')]
    readers = ['PGM', 'PFM', 'Y4M', 'libjpeg', 'libpng', 'FFmpeg', 'MagickWand', 'pgmx', 'PG', '', 'png', 'jpeg', 'default']
    for v in V:
        for (k, data, fx, claim) in F:
            # by name
            for e in exts:
                for nm in [names[0]] + [pick(r, names)]:
                    name = nm % case(e) if '%s' in nm else nm
                    if name in ('', '.', '..'): continue
                    fid = s.file(data, name, x=claim)
                    s.trace(v, ['open 0 %s NULL 15 %d' % (fid[1], fid[0]), '?read 0 g', 'close 0', 'readimg %s NULL %d' % (fid[1], fid[0]), 'quiesce'])
            fid = s.file(data, 'a.' + pick(r, exts), x=claim)
            l = []
            for e in exts + mimes:
                t = case(e) if '/' not in e else e
                l += ['open 0 %s %s 15 %d' % (fid[1], t or 'EMPTY', fid[0]), '?read 0 b', 'close 0']
                if r.random() < .3: l.append('readimg %s %s %d' % (fid[1], t or 'EMPTY', fid[0]))
            for e in readers:
                l += ['openr 0 %s %s 15 %d' % (fid[1], case(e) or 'EMPTY', fid[0]), '?read 0 b', 'close 0']
            s.trace(v, l + ['quiesce'])
            # names one character off from one that is known
            l = []
            for e in list(r.permutation(nearmisses(exts[:6])))[:24]: l += ['open 0 %s %s 15 %d' % (fid[1], e, fid[0]), '?read 0 b', 'close 0']
            for e in list(r.permutation(nearmisses(readers[:7])))[:16]: l += ['openr 0 %s %s 15 %d' % (fid[1], e, fid[0]), '?read 0 b', 'close 0']
            s.trace(v, l + ['quiesce'])
    # what no reader claims is attempted by those that go by the content, one alone or both
    fr = [r.integers(0, 256, (16, 18)).astype(np.uint8) for _ in range(2)]
    mono = gen.y4m_header(18, 16, b'mono', b' F25:1 Ip A1:1') + b''.join(gen.y4m_frame(r, 18, 16, b'mono', b'', f) for f in fr)
    (td, _), = formats.pil([('TIFF', [fr[0]], {})])
    G = [(['FFmpeg'], mono, fr, 'y4m'), (['FFmpeg'], formats.video(fr, 'ffv1', 'avi', 0, 1), fr, 'avi'),
         (['MagickWand'], td, fr[:1], 'tiff'), (['FFmpeg', 'MagickWand'], gen.pgm(fr[0]), fr[:1], 'pgm')]
    for rd, data, f, fx in G:
        for v in ['fftw'] + [x for x, y in (('nomw', 'FFmpeg'), ('noff', 'MagickWand')) if y in rd]:
            fid = s.file(data, 'a.' + fx, x=formats.claim(rd, [x.astype(int) for x in f]))
            l = []
            for e in ['NULL', 'EMPTY', 'xyz', 'avi', 'tiff', 'text/plain', 'image/', '.pgm', 'pg', 'pgmm', 'mkv,avi', 'a/b', 'AVI', 'mKv', 'MP4', 'mov', 'b'] + ([] if fx in ('y4m', 'pgm') else [fx.upper()]):
                if e == 'NULL' and fx in ('y4m', 'pgm'): continue
                l += ['open 0 %s %s 15 %d' % (fid[1], e, fid[0])] + ['?read 0 g'] * (len(f) + 1) + ['close 0', 'readimg %s %s %d' % (fid[1], e, fid[0])]
            s.trace(v, l + ['quiesce'])
    # parameter errors, in every combination of outputs
    for v in ('fftw', 'bare'):
        k, data, fx, claim = F[0]
        fid = s.file(data, 'a.' + fx, x=claim)
        l = []
        for fl in range(16):
            l += ['open 0 %s NULL %d %d' % (fid[1], fl, fid[0]), 'close 0', 'open 0 NULL NULL %d 0' % fl, 'close 0', 'open 0 NULL pgm %d 0' % fl, 'close 0', 'openr 0 %s NULL %d %d' % (fid[1], fl, fid[0]), 'close 0',
                  'openr 0 NULL PGM %d 0' % fl, 'close 0', 'openr 0 %s PGM %d %d' % (fid[1], fl, fid[0]), 'close 0', 'open 0 %s.missing NULL %d 0' % (fid[1][:-4], fl), 'close 0',
                  'open 0 %s/missing.pgm NULL %d 0' % (os.path.dirname(fid[1]), fl), 'close 0', 'openr 0 %s nosuch %d %d' % (fid[1], fl, fid[0]), 'close 0']
        s.trace(v, l + ['readimg NULL NULL 0', 'readimg NULL pgm 0', 'quiesce'])
    ck.run(s)

@check('R08')
def R08(ck):
    r = gen.rng(SEED, 'R08')
    s = ck.suite('r08')
    cases = [c for c in suites.calls(ck) if c[0] == 'readimg']
    ck.extra['model_cases'] = len(cases)
    for k in r.permutation(len(cases))[:q(500, len(cases))]: suites.call(s, r, cases[k])
    V = ['fftw', 'bare', 'kasan', 'pmax', 'pmaxk']
    for k in range(q(220, 1500)):
        c = r.integers(6)
        f = native(r) if c < 3 else tailed(r, int(r.integers(0, 4)), pick(r, ['eof', 'trunc', 'bad']), r.random() < .2)
        fid = s.file(f.data, 'a.' + f.ext)
        l = []
        for kind in ('file', pick(r, ['pipe', 'stdinfile', 'stdinpipe'])):
            pre, src = source(r, fid[1], (kind,))
            l += pre + ['readimg %s %s %d' % (src, 'NULL' if kind == 'file' and r.random() < .7 else f.ext, fid[0]), 'quiesce']
            l += pre + [openline(r, src, f.ext, fid[0])] + ['?read 0 g'] * (f.n + 2) + ['close 0', 'quiesce']
        s.trace(V[k % 5], l)
    for k in range(q(8, 50)):
        f = native(r, ['PFM', 'Y4M'][k % 2], n=int(r.integers(10, 70)), mx=4)
        fid = s.file(f.data, 'a.' + f.ext)
        l = ['readimg %s NULL %d' % (fid[1], fid[0])]
        for fk in (3, 5, 8, 13):   # growing fails
            for al in (0, 1):
                l += ['fault %d %d' % (fk, al), 'readimg %s NULL %d' % (fid[1], fid[0]), 'fault 0 0', 'quiesce']
        s.trace(pick(r, ['bare', 'kasan', 'fftw']), l + ['quiesce'])
    # very many frames
    for k in range(q(3, 6)):
        fid, path, e, N = many(s, r, ['PFM', 'Y4M'][k % 2], int(pick(r, [66000, 40000])), n=[2, 1, 3][k % 3], w=[1, 2, 1][k % 3], h=1)
        s.trace(pick(r, ['bare', 'fftw']), ['readimg %s NULL %d' % (path, fid), 'quiesce'])
    formats.sequences(s, r, q(10, 50), ['fftw', 'kiss'], None)
    ck.run(s)

@check('R09')
def R09(ck):
    r = gen.rng(SEED, 'R09')
    s = ck.suite('r09')
    # every size around the limit, for every format and entry point
    for v, P in (('pmax', 48), ('pmaxk', 96)):
        sz = []
        for w in range(1, P + 3):
            b = P // w
            sz += [(w, h) for h in {b, b + 1, max(1, b - 1)} if h > 0] if w <= q(14, P) or w >= P - 2 or P % w == 0 else []
        for j, (w, h) in enumerate(sz):
            im = [s.image(np.full((h, w), x, np.float32), gen_const(w, h)) for x in (1.0,)]
            l = []
            for k, fmt in enumerate(('PGM', 'PFM', 'Y4M')):
                if (j + k) % q(2, 1): continue
                n = [1, 1, 2][r.integers(3)] if fmt != 'PGM' else 1
                f = native(r, fmt, n=n, w=w, h=h, special=0, csp=pick(r, [None, b'mono', b'444', b'420p10']))
                ii = [s.image(p.astype(np.float32), *proj(p)) for p in f.frames] if all(p is not None for p in f.frames) else None
                fid = s.file(f.data, 'a.' + f.ext, fi=ii or [])
                l += [openline(r, fid[1], f.ext, fid[0], 0, None, pick(r, [15, 15, 14, 13]))] + ['?read 0 g'] * (n + 1) + ['close 0', 'readimg %s NULL %d' % (fid[1], fid[0])]
                if ii and w * h * n > 1: l += ['dfile %s NULL 15 sign NULL %d' % (fid[1], fid[0])]
            l += ['create 0 %s %d %d NULL 1' % (pick(r, METHODS), w, h), 'detect %d %d 15 sign NULL 1 %d' % (w, h, im[0])]
            if w * h <= P: l += ['destroy 0']
            s.trace(v, l + ['quiesce'])
    # products that do not fit
    big = [2**k + d for k in (31, 32, 33, 40, 61, 62, 63) for d in (0,)] + [2**64 - 1, 2**62 + 2**20]
    for v in ('fftw', 'kiss', 'pmax', 'pmaxk', 'bare', 'pmax32'):
        l = []
        for a in big:
            for b in (1, 2, 3, 4, 2**31, 2**32, 2**62, 2**63, 2**64 - 1):
                la, lb = a.bit_length() - 1, b.bit_length() - 1
                if v not in ('pmax', 'pmaxk', 'pmax32') and la + lb < 62: continue   # might be attempted
                l += ['create 0 sign %d %d NULL 1' % (a, b), 'create 0 mag %d %d NULL 0' % (b, a)]
        s.trace(v, l + ['quiesce'])
    # headers claiming sizes at and over what fits
    for v in ('pmax', 'pmaxk', 'pmax32'):
        for w, h in ((7, 7), (48, 1), (49, 1), (97, 1), (1, 97), (1, 49), (65536, 65536), (999999999, 999999999), (1000, 4294968), (4294967296, 1), (99999, 1), (2, 48), (10, 10)):
            for fmt, hd in (('pgm', b'P5\n%d %d\n255\n' % (w, h)), ('pfm', b'Pf\n%d %d\n-1\n' % (w, h)), ('y4m', b'YUV4MPEG2 W%d H%d Cmono\n' % (w, h))):
                if v == 'pmax32' and w * h < 4e9: continue
                fid = s.file(hd + bytes(64), 'a.' + fmt)
                s.trace(v, [openline(r, fid[1], fmt, fid[0]), '?read 0 g', 'close 0', 'readimg %s NULL %d' % (fid[1], fid[0]), 'quiesce'])
    formats.limits(s, r, ['pmax', 'pmaxk'])
    ck.run(s)

def gen_const(w, h):
    c = np.zeros((h, w), int); c[0, 0] = 1000
    return c
def proj(p):
    c, t = gen.project(p)
    return c, t

@check('R10')
def R10(ck):
    r = gen.rng(SEED, 'R10')
    s = ck.suite('r10')
    formats.pngs(s, r, q(150, 900), ['fftw', 'asan', 'img'])
    formats.jpegs(s, r, q(60, 300), ['fftw', 'asan', 'img'])
    formats.sequences(s, r, q(30, 150), ['fftw', 'asan'], lambda n: [pick(r, ['R', 'R', 'R', 'S1', 'S0', 'S2']) for _ in range(n + 2)])
    formats.videos(s, r, q(18, 90), ['asan', 'fftw'], lambda n: [pick(r, ['R', 'R', 'R', 'R', 'S1', 'S2']) for _ in range(n + 2)])
    formats.damaged(s, r, q(300, 2500), ['asan'])
    formats.broken(s, r, q(80, 900), ['asan', 'fftw', 'img'])
    ck.run(s)

# =========================================================================== resources
def scenarios(s, r, v):
    """Histories of every kind of call, as (setup, call, further calls, release)."""
    ext = v in ('fftw', 'kiss', 'asan', 'img')
    out = []
    out.append(([], 'palloc 0', ['prange 0 2', 'pthr 0 %s' % gen.thr_args(0, 1)], ['pfree 0']))
    for m in METHODS:
        for w, h in ((5, 4), (1, 7), (7, 1), (16, 9), (22, 3)):
            if r.random() > q(.4, 1): continue
            im = [random_image(s, r, w, h, 1) for _ in range(2)]
            pre = ['palloc 0', 'prange 0 1', 'pthr 0 %s' % gen.thr_args(0, 1)]
            c = 'create 0 %s %d %d 0 1' % (m, w, h)
            rest = ['analyze 0 %d' % im[0], 'results 0 15', 'analyze 0 %d' % im[1], 'results 0 15']
            end = ['destroy 0', 'pfree 0']
            out.append((pre, c, rest, end))
            out.append((pre + [c], rest[0], rest[1:], end))
            out.append((pre + [c, rest[0]], rest[2], ['results 0 15'], end))
            for mask in (15, 3, 12, 11, 14, 2, 10): out.append((pre + [c, rest[0]], 'results 0 %d' % mask, rest[1:], end))
            for n in (1, 2):
                for mask in (15, 3, 12, 10): out.append((pre, 'detect %d %d %d %s 0 %d %s' % (w, h, mask, m, n, ' '.join(map(str, im[:n]))), ['detect %d %d 15 NULL NULL 1 %d' % (w, h, im[0])], ['pfree 0']))
    files = []
    for fmt in ('PGM', 'PFM', 'Y4M'):
        for n in ((1,) if fmt == 'PGM' else (0, 1, 3, 9) if fmt == 'Y4M' else (1, 3, 9)):
            f = native(r, fmt, n=n, special=0, plain=True)
            ii = [s.image(np.asarray(p, np.float32), *proj(p)) for p in f.frames]
            files.append((s.file(f.data, 'a.' + f.ext, fi=ii), f.ext, fmt, len(f.frames), bool(ii) and f.w * f.h > 1))
        for t in ('trunc', 'bad') if fmt != 'PGM' else ('trunc',):
            f = tailed(r, 0 if fmt == 'PGM' else int(r.integers(1, 3)), t, fmt == 'PGM')
            files.append((s.file(f.data, 'b.' + f.ext), f.ext, f.fmt, f.n, False))
        f = native(r, fmt)
        files.append((s.file(f.data[:max(1, f.start - 3)], 'c.' + f.ext), f.ext, fmt, 1, False))
    if ext:
        d, sums, mx = png(r, 9, 7, 2, 8, True, False)
        files.append((s.file(d, 'a.png', x=claim(['libpng'], [sums], mx)), 'png', 'libpng', 1, False))
        d, sums, mx = png(r, 9, 7, 3, 4, False, True)
        files.append((s.file(d, 'a.png', x=claim(['libpng'], [sums], mx)), 'png', 'libpng', 1, False))
        files.append((s.file(d[:len(d) // 2], 'b.png'), 'png', 'libpng', 1, False))
        files.append((s.file(d[:10], 'c.png'), 'png', 'libpng', 1, False))
        (jd, jl), (td, _) = pil([('JPEG', [r.integers(0, 256, (9, 10)).astype(np.uint8)], {'quality': 90}), ('TIFF', [r.integers(0, 256, (5, 6)).astype(np.uint8)], {})])
        files.append((s.file(jd, 'a.jpg', x=claim(['libjpeg'], [jl], 255, 1)), 'jpg', 'libjpeg', 1, False))
        files.append((s.file(jd[:len(jd) // 2], 'b.jpg'), 'jpg', 'libjpeg', 1, False))
        files.append((s.file(jd[:30], 'c.jpg'), 'jpg', 'libjpeg', 1, False))
        if v != 'img':
            fr = [r.integers(0, 256, (5, 6)).astype(np.uint8) for _ in range(2)]
            yd = gen.y4m_header(6, 5, b'mono', b' F25:1 Ip A1:1') + b''.join(gen.y4m_frame(r, 6, 5, b'mono', b'', f) for f in fr)
            files.append((s.file(yd, 'a.y4m', x=claim(['FFmpeg'], fr)), 'y4m', 'FFmpeg', 2, False))
            files.append((s.file(yd[:-5], 'b.y4m'), 'y4m', 'FFmpeg', 2, False))
            files.append((s.file(yd[:20], 'c.y4m'), 'y4m', 'FFmpeg', 2, False))
            fr = [r.integers(0, 256, (16, 18)).astype(np.uint8) for _ in range(3)]
            files.append((s.file(formats.video(fr, 'ffv1', 'avi', 0, 1), 'a.avi', x=claim(['FFmpeg'], fr)), 'avi', 'FFmpeg', 3, False))
            files.append((s.file(td, 'a.tiff'), 'tiff', 'MagickWand', 1, False))
            files.append((s.file(td[:20], 'c.tiff'), 'tiff', 'MagickWand', 1, False))
    for (fid, path), e, rd, n, det in files:
        for fl in (15, 14):
            o = 'openr 0 %s %s %d %d' % (path, rd, fl, fid)
            rest = ['?read 0 g'] * (n + 2)
            out.append(([], o, rest, ['close 0']))
            out.append(([o], '?read 0 g', rest, ['close 0']))
            if fl == 15:
                out.append(([o], '?seek 0 1 1', rest, ['close 0']))
                if n > 1: out.append(([o, '?read 0 g'], '?seek 0 1 0', rest, ['close 0']))
        if rd not in ('FFmpeg', 'MagickWand'):
            out.append(([], 'open 0 %s NULL 15 %d' % (path, fid), ['?read 0 b'] * 2, ['close 0']))
            out.append(([], 'open 0 - %s 15 %d' % (e, fid), ['?read 0 b'] * 2, ['close 0']))
            out.append(([], 'readimg %s NULL %d' % (path, fid), [], []))
        if det:
            for mask in (15, 3): out.append(([], 'dfile %s NULL %d %s NULL %d' % (path, mask, METHODS[r.integers(4)], fid), [], []))
    return out

@check('R11')
def R11(ck):
    r = gen.rng(SEED, 'R11')
    s = ck.suite('r11')
    V = ['fftw', 'bare', 'img', 'noff', 'nomw'] + q([], ['kiss', 'omit', 'asan', 'kasan', 'pmax'])
    builds(V)
    # files that cannot be opened, by every reader and every entry point
    plain = s.file(native(r, 'PFM', n=1, plain=True).data, 'plain.pfm')[1]
    d = os.path.dirname(plain)
    os.symlink('loop.png', os.path.join(d, 'loop.png'))
    os.symlink('gone.y4m', os.path.join(d, 'dangling.pgm'))
    bad = [d + '/nosuch', d + '/nosuch/a', plain + '/a', d + '/' + 'n' * 252, d + '/loop.png/a', d + '/dangling', plain + '/', d + '/' + 'x/' * 2100 + 'a', 'EMPTY', d + '/loop.png', d + '/dangling.pgm']
    exts = ['', '.pgm', '.pfm', '.y4m', '.png', '.jpg', '.xyz', '.avi', '.tiff', '.jpeg', '.PNG']
    for v in V:
        for k, b in enumerate(bad):
            for e in (exts if k < 8 else ['']):
                if e == '' and k in (5,): continue
                p = b + e
                l = []
                for fl in (15, 14, 12): l += ['open 0 %s NULL %d 0' % (p, fl), 'close 0']
                for t in ('pgm', 'PNG', 'xyz', 'image/jpeg', 'video/yuv4mpeg'): l += ['open 0 %s %s 15 0' % (p, t), 'close 0', 'readimg %s %s 0' % (p, t)]
                for rd in ALLREADERS: l += ['openr 0 %s %s %d 0' % (p, rd, pick(r, [15, 15, 14])), 'close 0']
                l += ['readimg %s NULL 0' % p, 'dfile %s NULL %d sign NULL 0' % (p, r.integers(1, 16)), 'quiesce']
                s.trace(v, l)
    # files that can be opened, of which there is nothing to be made
    for v in V:
        for data in [b'', b'\0', b'\n', bytes(r.integers(0, 256, 300, dtype=np.uint8)).replace(b'P', b'Q'), b'P', b'hello\n' * 20, bytes([1, 2, 3, 4] * 10), b'P7\nWIDTH 1\n']:
            none = {'readers': ['MagickWand'], 'w': 0, 'h': 0, 'd': 1, 't': 0, 'e': 'unsupp', 'near': False, 'f': []}
            for e in exts:
                unknown = e in ('', '.xyz') and not data.startswith(b'P7')
                fid = s.file(data, 'a' + e, x=none if unknown else None)
                l = ['open 0 %s NULL 15 %d' % (fid[1], fid[0]), 'close 0', 'readimg %s NULL %d' % (fid[1], fid[0])]
                for rd in ALLREADERS: l += ['openr 0 %s %s 15 %d' % (fid[1], rd, fid[0]), '?read 0 g', 'close 0']
                s.trace(v, l + ['quiesce'])
    # and those for which memory or file descriptors run out
    for k in range(q(40, 200)):
        v = ['bare', 'fftw', 'img', 'asan'][k % q(3, 4)]
        f = native(r)
        fid = s.file(f.data, 'a.' + f.ext)
        l = []
        for fk in range(1, 7):
            l += ['fault %d %d' % (fk, r.integers(2)), 'open 0 %s NULL 15 %d' % (fid[1], fid[0]), 'fault 0 0', 'close 0', 'fault %d 0' % fk, 'open 0 %s NULL 15 0' % pick(r, [d + '/nosuch.' + f.ext, plain + '/a.' + f.ext]), 'fault 0 0', 'close 0']
        s.trace(v, l + ['quiesce'])
    ck.run(s)

@check('M01')
def M01(ck):
    r = gen.rng(SEED, 'M01')
    V = ['fftw', 'kiss', 'asan', 'kasan'] + q([], ['img', 'cL', 'iF', 'kFF', 'omit'])
    builds(V)
    lsan = lsan_works('asan')
    ck.extra['leak_sanitizer'] = lsan
    runs = {}
    # first count the allocations of every call ...
    c = ck.suite('m01count')
    for v in V:
        sc = scenarios(c, r, v)
        for k, (pre, op, rest, end) in enumerate(sc):
            if 'open 0 - ' in op: pre = ['stdin file 0 %s' % dict((b, a) for a, b in c.paths.items())[int(op.split()[5])]] + pre
            sc[k] = (pre, op, rest, end)
            c.trace(v, pre + ['count', 'note here', op] + rest + end + ['quiesce'], '%s.%d' % (v, k))
        runs[v] = sc
    c.run()
    # ... then make each of them fail, alone and with all that follow
    s = ck.suite('m01')
    s.images, s.pix, s.files, s.paths, s.dir, s.lsan = c.images, c.pix, c.files, c.paths, c.dir, int(lsan)
    nf = 0
    for v in V:
        for k, (pre, op, rest, end) in enumerate(runs[v]):
            ev = c.events['%s.%d' % (v, k)][1]
            i = [j for j, e in enumerate(ev) if e['op'] == 'note'][0] + 1
            na = ev[i]['na'] if i < len(ev) and ev[i]['op'] == op.split()[0].lstrip('?') else 0
            for fk in range(1, na + 1):
                for al in (0, 1) if fk < na else (0,):
                    nf += 1
                    again = ['!' + op] if op.split()[0] in ('palloc', 'create', 'open', 'openr') else [op]
                    if 'open 0 - ' in op: again = [pre[0], '!' + op]
                    l = pre + ['fault %d %d' % (fk, al), op, 'fault 0 0'] + again + rest + end + ['quiesce']
                    if lsan and v in ('asan', 'kasan'): l.append('leak')
                    s.trace(v, l)
    ck.extra['injected_faults'] = nf
    ck.extra['scenarios'] = sum(len(x) for x in runs.values())
    if nf < 200: raise CheckError('hardly any allocations were found')
    ck.run(s)
    # without faults: whatever happened before, nothing is left
    s = ck.suite('m01b')
    s.lsan = int(lsan)
    for k in range(q(40, 300)):
        v = ['asan', 'kasan', 'fftw', 'kiss'][k % 4]
        s.trace(v, suites_interleaved(s, r) + ['quiesce'] + (['leak'] if lsan and v[-4:] == 'asan' else []))
    # sequences that end well or not, read and skipped, on streams that cannot seek
    for k in range(q(150, 1200)):
        f = tailed(r, int(r.integers(0, 4)), ['eof', 'trunc', 'trunc', 'bad'][r.integers(4)], r.random() < .2)
        walk(s, r, f, [['asan', 'kasan', 'fftw', 'bare'][k % 4]], [READOPS[r.integers(6)] for _ in range(int(r.integers(1, 6)))], ('pipe', 'stdinpipe', 'stdinfile'))
    # whole files in one call: every way to end, every allocation that fails
    cases = suites.calls(ck)
    ck.extra['model_cases'] = len(cases)
    for k in r.permutation(len(cases))[:q(1500, len(cases))]: suites.call(s, r, cases[k])
    formats.damaged(s, r, q(60, 500), ['asan'])
    if lsan: s.traces = [(t, v, l + ['leak'] if v == 'asan' and l[-1] != 'leak' else l) for t, v, l in s.traces]
    ck.run(s)

def suites_interleaved(s, r):
    from checks import interleaved
    return interleaved(s, r, handles=range(3), steps=q(40, 80))

@check('U01')
def U01(ck):
    r = gen.rng(SEED, 'U01')
    s = ck.suite('u01')
    V = ['fftw', 'kiss', 'bare', 'img', 'noff', 'nomw', 'omit', 'range3'] + q([], ['cD', 'cL', 'iF', 'nosb', 'pmax', 'asan', 'kasan'])
    builds(V)
    f, y, g = native(r, 'PFM', n=1, plain=True), native(r, 'Y4M', n=2, csp=b'mono', plain=True), native(r, 'PGM')
    d, sums, mx = png(r, 9, 7, 2, 8, False, False)
    fr = [r.integers(0, 256, (5, 6)).astype(np.uint8) for _ in range(2)]
    (jd, jl), (td, _) = pil([('JPEG', [r.integers(0, 256, (9, 10)).astype(np.uint8)], {'quality': 90}), ('TIFF', [fr[0]], {})])
    yd = gen.y4m_header(6, 5, b'mono', b' F25:1 Ip A1:1') + b''.join(gen.y4m_frame(r, 6, 5, b'mono', b'', x) for x in fr)
    F = {'PFM': s.file(f.data, 'a'), 'Y4M': s.file(y.data, 'a'), 'PGM': s.file(g.data, 'a'), 'libpng': s.file(d, 'a', x=claim(['libpng'], [sums], mx)), 'libjpeg': s.file(jd, 'a', x=claim(['libjpeg'], [jl], 255, 1)),
         'FFmpeg': s.file(yd, 'a', x=claim(['FFmpeg'], fr)), 'MagickWand': s.file(td, 'a', x=claim(['MagickWand'], [fr[0].astype(int)]))}
    codes = list(range(-140, 40)) + [100, 255, 256, 1000, 65536, 2**31 - 1, -1000, -4095, -65536, -(2**31) + 1]
    for v in V:
        s.trace(v, ['queries'] + ['errstr %d' % e for e in codes] + ['queries', 'quiesce'])
        l = []
        for rd in ALLREADERS:
            for nm in {rd, rd.lower(), rd.upper(), ''.join(x.upper() if r.random() < .5 else x.lower() for x in rd)}:
                l += ['openr 0 %s %s 15 %d' % (F[rd][1], nm, F[rd][0]), '?read 0 g', '?read 0 g', '?read 0 g', 'close 0']
            for nm in (rd[:-1], rd + 'x', 'x' + rd, rd[:-1] + '_'):
                l += ['openr 0 %s %s 15 %d' % (F[rd][1], nm, F[rd][0]), 'close 0']
        s.trace(v, l + ['quiesce'])
        # methods by name are those of the list
        i = random_image(s, r, 26, 5, 12)
        for m in METHODS:
            s.trace(v, ['create 0 %s 26 5 NULL 1' % m, 'analyze 0 %d' % i, 'results 0 15', 'destroy 0', 'detect 26 5 15 %s NULL 1 %d' % (m, i), 'quiesce'])
    ck.run(s)
