"""The checks, one per property."""
from core import *
import gen, suites
from suites import *

CHECKS = {}
DEVIATION_OWNER = {"compression-filter-offsets": ("A09",), "kissfft-scratch-failure": ("A05",)}
def check(pid, level='model_checking'):
    def deco(f):
        CHECKS[pid] = (f, level)
        return f
    return deco
def q(quick, thorough):
    return thorough if THOROUGH else quick

# =========================================================================== detection
@check('A01')
def A01(ck):
    r = gen.rng(SEED, 'A01')
    s = ck.suite('a01')
    suites.detection(s, r, ['fftw', 'kiss'], q(120, 700), mx=40)
    # every length around every range, thresholds of 0 (all), 1, and exactly reachable fractions
    for m in METHODS:
        for L in list(range(1, 12)) + [24, 25, 26, 27]:
            R = int(r.choice([1, 2, 3, 4, 5, 12]))
            o = int(r.integers(1, 6))
            for w, h in ((L, o), (o, L)):
                i = random_image(s, r, w, h, R)
                l = ['palloc 0', 'prange 0 %d' % R, 'pthr 0 %s' % gen.thr_args(*[(0, 1), (1, 1), (1, 2), (int(r.integers(1, o * R + 1)), o * R)][r.integers(4)])]
                l += ['create 0 %s %d %d 0 1' % (m, w, h), 'analyze 0 %d' % i, 'results 0 15', 'destroy 0', 'pfree 0', 'quiesce']
                s.trace(['fftw', 'kiss'][r.integers(2)], l)
    suites.nearties(s, r, q(8, 60))
    # ranges far over the size
    for R in (13, 100, 2**20, 2**31, 2**32 - 1, 2**32, 2**63, 2**64 - 1):
        for m in METHODS:
            w, h = sizes(r, 20)
            i = random_image(s, r, w, h)
            s.trace('fftw', ['palloc 0', 'prange 0 %d' % R, 'pthr 0 %s' % gen.thr_args(0, 1), 'create 0 %s %d %d 0 1' % (m, w, h), 'analyze 0 %d' % i, 'results 0 15', 'destroy 0', 'pfree 0', 'quiesce'])
    ck.run(s)

@check('A02')
def A02(ck):
    r = gen.rng(SEED, 'A02')
    s = ck.suite('a02')
    S = suites.spectra(ck)
    suites.smallspectra(s, r, [S[i] for i in r.permutation(len(S))[:q(1200, 20000)]], ['fftw', 'kiss'])
    suites.detection(s, r, ['fftw', 'kiss'], q(150, 1000))
    # threshold 0: every confidence is shown
    for k in range(q(80, 500)):
        w, h = sizes(r, 26)
        R = int(r.choice([1, 2, 3, 5, 12]))
        m = METHODS[r.integers(4)]
        i = random_image(s, r, w, h, R)
        s.trace(['fftw', 'kiss'][r.integers(2)], ['palloc 0', 'prange 0 %d' % R, 'pthr 0 %s' % gen.thr_args(0, 1), 'create 0 %s %d %d 0 1' % (m, w, h), 'analyze 0 %d' % i, 'results 0 15', 'destroy 0', 'pfree 0', 'quiesce'])
    # natural images: the transform itself, in the presence of rounding
    for k in range(q(40, 300)):
        w, h = int(r.integers(3, 40)), int(r.integers(3, 40))
        i = natural(s, r, w, h)
        R = int(r.choice([1, 2, 4, 12]))
        m = METHODS[r.integers(4)]
        s.trace(['fftw', 'kiss'][r.integers(2)], ['palloc 0', 'prange 0 %d' % R, 'pthr 0 %s' % gen.thr_args(0, 1), 'create 0 %s %d %d 0 1' % (m, w, h), 'analyze 0 %d' % i, 'results 0 15', 'destroy 0', 'pfree 0', 'quiesce'])
    ck.run(s)
    s = ck.suite('a02large')
    suites.large(s, r, ['fftw', 'kiss'], METHODS if THOROUGH else ['sign', METHODS[1 + SEED % 3]])
    if THOROUGH: suites.large(s, r, ['fftw', 'kiss'], ['sign', 'mag', 'orig'], ((9, 16500, 4), (16500, 9, 4), (70000, 5, 2)))
    ck.run(s)

@check('A03')
def A03(ck):
    r = gen.rng(SEED, 'A03')
    s = ck.suite('a03')
    def odd(c):      # about a column or row, with its neighbors
        return any(all(v[j, x - 1] == -v[j, x + 1] != 0 for j in range(len(v))) for v in (c, c.T) for x in range(1, v.shape[1] - 1))
    S = [c for c in suites.spectra(ck) if odd(c)]
    suites.smallspectra(s, r, [S[i] for i in r.permutation(len(S))[:q(400, 10000)]], ['fftw', 'kiss'])
    for k in range(q(120, 800)):
        R = int(r.choice([1, 2, 3, 4, 8, 12]))
        w = int(r.integers(2 * R + 2, 2 * R + 20)); h = int(r.integers(2 * R + 2, 2 * R + 20))
        if r.random() < .2: h = int(r.integers(1, 2 * R + 1))
        elif r.random() < .2: w = int(r.integers(1, 2 * R + 1))
        c = gen.spectrum(r, w, h, ['odd', 'wide'][r.integers(2)])
        # odd about one size in each dimension, all lines
        if w > 2 * R + 1: c = gen.make_odd_about(c, int(r.integers(R, w - R)), R, 1)
        if h > 2 * R + 1: c = gen.make_odd_about(c, int(r.integers(R, h - R)), R, 0)
        i = s.image(gen.unspectrum(c), c)
        l, p = [], 'NULL'
        if R != 12 or r.random() < .3:
            l, p = ['palloc 0', 'prange 0 %d' % R], '0'
        l += ['create 0 NULL %d %d %s 1' % (w, h, p), 'analyze 0 %d' % i, 'results 0 15', 'destroy 0', 'detect %d %d 15 NULL %s 1 %d' % (w, h, p, i)]
        if p == '0': l.append('pfree 0')
        s.trace(['fftw', 'kiss'][r.integers(2)], l + ['quiesce'])
    # images upscaled in the pixel domain
    for k in range(q(40, 300)):
        f = int(r.choice([2, 2, 3, 4])); a, b = int(r.integers(4, 20)), int(r.integers(4, 20))
        base = r.random((b, a))
        big = np.kron(base, np.ones((f, f))) if r.random() < .5 else linear_up(linear_up(base, f, 0), f, 1)
        c, t = gen.project(big)
        i = s.image(big, c, t)
        R = max(1, min(a, b) // 4)
        h, w = big.shape
        s.trace(['fftw', 'kiss'][r.integers(2)], ['palloc 0', 'prange 0 %d' % R, 'create 0 NULL %d %d 0 1' % (w, h), 'analyze 0 %d' % i, 'results 0 15', 'destroy 0', 'pfree 0', 'quiesce'])
    ck.run(s)

def linear_up(p, f, axis):
    """Upscaling by an integer factor with linear interpolation, sample centers aligned, edges mirrored."""
    p = np.moveaxis(np.asarray(p, float), axis, 0)
    n = p.shape[0]
    x = (np.arange(n * f) + .5) / f - .5
    i = np.floor(x).astype(int); t = (x - i).reshape(-1, *[1] * (p.ndim - 1))
    g = lambda k: p[np.clip(k, 0, n - 1)]
    return np.moveaxis(g(i) * (1 - t) + g(i + 1) * t, 0, axis)

@check('A04')
def A04(ck):
    r = gen.rng(SEED, 'A04')
    s = ck.suite('a04')
    for k in range(q(60, 400)):
        w, h = sizes(r, 20)
        R = int(r.choice([1, 2, 3, 12]))
        m = METHODS[r.integers(4)]
        n = int(r.choice([1, 2, 3, 4, 5, 8]))
        kind = KINDS[r.integers(len(KINDS))]
        im = [random_image(s, r, w, h, R, kind) for _ in range(n)]
        if n > 1 and r.random() < .3: im[-1] = im[0]
        thr = gen.thr_args(*rand_thr(r)) if r.random() < .7 else gen.thr_args(0, 1)
        par = ['palloc 0', 'prange 0 %d' % R, 'pthr 0 %s' % thr]
        perm = [im[j] for j in r.permutation(n)]
        fid = s.file(b''.join(gen.pfm_frame(s.pix[j - 1], le=bool(r.random() < .5)) for j in im), 'a.pfm', fi=im)
        l = par + ['create 0 %s %d %d 0 1' % (m, w, h), 'create 1 %s %d %d 0 1' % (m, w, h), 'results 0 15']
        for j in range(n):
            l.append('analyze 0 %d' % im[j])
            if r.random() < .4: l += ['results 0 %d' % r.choice([15, 3, 12, 0, 11])] * int(r.integers(1, 3))
            l.append('analyze 1 %d' % perm[j])
        l += ['results 0 15', 'results 0 15', 'results 1 15', 'destroy 0', 'destroy 1',
              'detect %d %d 15 %s 0 %d %s' % (w, h, m, n, ' '.join(map(str, im))), 'dfile %s NULL 15 %s 0 %d' % (fid[1], m, fid[0]), 'dfile PIPE:%d:%s pfm 15 %s 0 %d' % (r.choice([1, 64, 65536]), fid[1], m, fid[0]),
              'pfree 0', 'quiesce']
        s.trace(['fftw', 'kiss'][r.integers(2)], l)
    # long sequences: the mean of many frames
    for k in range(q(6, 30)):
        w, h = int(r.integers(1, 9)), int(r.integers(1, 9))
        m = METHODS[r.integers(4)]
        im = [random_image(s, r, w, h, 1) for _ in range(5)]
        seq = [im[j] for j in r.integers(0, 5, q(60, 400))]
        l = ['palloc 0', 'prange 0 1', 'pthr 0 %s' % gen.thr_args(0, 1), 'create 0 %s %d %d 0 1' % (m, w, h)] + ['analyze 0 %d' % j for j in seq]
        s.trace('kiss', l + ['results 0 15', 'destroy 0', 'pfree 0', 'quiesce'])
    suites.nearties(s, r, q(8, 60))
    suites.oddvalues(s, r, q(24, 120))
    # very long ones: any number of frames counts
    for k in range(q(8, 32)):
        w, h = int(r.integers(3, 8)), int(r.integers(3, 8))
        m = METHODS[k % 4]
        im = [random_image(s, r, w, h, 1) for _ in range(3)]
        par = ['palloc 0', 'prange 0 1', 'pthr 0 %s' % (gen.thr_args(0, 1) if k % 2 else gen.thr_args(*rand_thr(r)))]
        l = par + ['create 0 %s %d %d 0 1' % (m, w, h)]
        for n in (120, 133, 3, 1, q(0, 30000), 33000, 32400) if k < 4 else (r.integers(1, 300, 4)):
            l += ['analyzen 0 %d %d' % (im[r.integers(3)], n), 'results 0 15']
        l += ['destroy 0', 'detectr %d %d 15 %s 0 %d %d %d %d' % ((w, h, m, int(r.choice([85, 86, 90, 21900] if k < 4 else [85, 86, 100]))) + tuple(im))]
        fid = many(s, r, 'PFM', int(r.choice([128, 256, 300, 33000] if k < 4 else [128, 256, 300])), w, h, 2)
        s.trace(['kiss', 'fftw'][k % 2], l + ['dfile %s NULL 15 %s 0 %d' % (fid[1], m, fid[0]), 'pfree 0', 'quiesce'])
    ck.run(s)

def badimages(s, r, w, h):
    """Images with a NaN or an infinity somewhere."""
    res = []
    for v in (np.nan, np.inf, -np.inf, -np.nan):
        p = r.standard_normal((h, w)).astype(np.float32)
        y, x = [(0, 0), (h - 1, w - 1), (int(r.integers(h)), int(r.integers(w))), (h - 1, 0)][r.integers(4)]
        p[y, x] = v
        res.append(s.image(p, np.zeros((h, w), int), 0, True))
    return res

def comb(s, r, w, h, R):
    """An image in which the orig method finds something at every R + 1st candidate, the first and the last one included."""
    c = np.where(r.random((h, w)) < .5, 1, -1) * 8
    c[:, R::R + 1] = 0; c[R::R + 1, :] = 0
    for x in (R, w - R - 1):
        for k in range(1, R + 1): c[:, x + k] = -c[:, x - k]
    for y in (R, h - R - 1):
        for k in range(1, R + 1): c[y + k] = -c[y - k]
    return s.image(gen.unspectrum(c), c)

@check('A05')
def A05(ck):
    r = gen.rng(SEED, 'A05')
    s = ck.suite('a05')
    suites.apihistories(ck, s, r, 'two', q(900, 12000), ['fftw', 'kiss', 'kasan'], .6)
    V = ['fftw', 'kiss', 'kasan']
    for k in range(q(90, 500)):
        w, h = sizes(r, 20)
        R = int(r.choice([1, 2, 3, 12]))
        m = METHODS[r.integers(4)]
        good = [random_image(s, r, w, h, R) for _ in range(3)]
        bad = badimages(s, r, w, h)
        l = ['palloc 0', 'prange 0 %d' % R, 'pthr 0 %s' % gen.thr_args(0, 1), 'create 0 %s %d %d 0 1' % (m, w, h)]
        g = 0
        for j in range(int(r.integers(3, 12))):
            c = r.integers(0, 11)
            if c < 3: l.append('analyze 0 %d' % good[r.integers(3)])
            elif c < 5: l.append('analyze 0 %d' % bad[r.integers(len(bad))])
            elif c == 5: l.append('analyze 0 NULL')
            elif c == 6: l.append('results 0 %d' % r.choice([1, 4, 5, 13, 7]))
            elif c == 7: l += [['prange 0 0', 'pthr 0 ' + BADTHR[r.integers(len(BADTHR))], 'pfilt 0 %d' % r.integers(32, 256)][r.integers(3)], 'create 1 %s %d %d 0 1' % (m, w, h), 'analyze 1 %d' % good[0], 'results 1 15', 'destroy 1']
            elif c == 8: l += ['fault %d %d' % (r.integers(1, 5), r.integers(2)), 'analyze 0 %d' % good[r.integers(3)], 'fault 0 0', 'results 0 15']
            elif c == 9: l += ['fault %d %d' % (r.integers(1, 3), r.integers(2)), 'results 0 15', 'fault 0 0', 'results 0 15']
            else: l += ['fault %d 0' % r.integers(1, 12), 'detect %d %d 15 %s 0 1 %d' % (w, h, m, good[0]), 'fault 0 0', 'detect %d %d 15 %s 0 2 %d %d' % (w, h, m, good[0], bad[0])]
        l += ['results 0 15', 'analyze 0 %d' % good[0], 'results 0 15', 'detect %d %d 15 %s 0 1 %d' % (w, h, m, good[1]), 'destroy 0', 'pfree 0', 'quiesce']
        s.trace(V[k % 3], l)
    # every position of a bad pixel, every failing allocation of an analysis
    for v in V:
        for m in METHODS:
            w, h = 5, 4
            good = random_image(s, r, w, h, 1)
            l = ['palloc 0', 'prange 0 1', 'pthr 0 %s' % gen.thr_args(0, 1), 'create 0 %s %d %d 0 1' % (m, w, h), 'analyze 0 %d' % good]
            for pos in range(w * h):
                p = s.pix[good - 1].copy(); p.flat[pos] = [np.nan, np.inf, -np.inf][pos % 3]
                l += ['analyze 0 %d' % s.image(p, np.zeros((h, w), int), 0, True)]
            s.trace(v, l + ['results 0 15', 'destroy 0', 'pfree 0', 'quiesce'])
            for (w, h) in ((5, 4), (7, 1), (1, 7), (9, 9)):
                good = [random_image(s, r, w, h, 2) for _ in range(2)]
                for fk in range(1, 6):
                    for al in (0, 1):
                        s.trace(v, ['palloc 0', 'prange 0 2', 'pthr 0 %s' % gen.thr_args(0, 1), 'create 0 %s %d %d 0 1' % (m, w, h), 'analyze 0 %d' % good[0], 'fault %d %d' % (fk, al), 'analyze 0 %d' % good[1], 'fault 0 0', 'results 0 15',
                                    'analyze 0 %d' % good[1], 'results 0 15', 'fault %d %d' % (fk, al), 'results 0 15', 'fault 0 0', 'results 0 15', 'destroy 0', 'pfree 0', 'quiesce'])
            # images in which the candidates at both ends count, however much was analyzed before
            for R in (1, 2, 3):
                w, h = 2 * R + 1 + (R + 1) * int(r.integers(1, 4)), 2 * R + 1 + (R + 1) * int(r.integers(1, 4))
                good = [comb(s, r, w, h, R) for _ in range(2)]
                for pre in (0, 2):
                    for fk in range(1, 6):
                        s.trace(v, ['palloc 0', 'prange 0 %d' % R, 'pthr 0 %s' % gen.thr_args(0, 1), 'create 0 %s %d %d 0 1' % (m, w, h)] + ['analyze 0 %d' % good[0]] * pre + ['fault %d 0' % fk, 'analyze 0 %d' % good[1], 'fault 0 0', 'results 0 15',
                                    'analyze 0 %d' % good[0], 'results 0 15', 'destroy 0', 'pfree 0', 'quiesce'])
    ck.run(s)

BADTHR = ['7fc00000 0 -1 1', 'ffc00000 0 -1 1', '7f800000 0 -1 1', 'ff800000 0 -1 1', 'bf800000 0 -1 1', '80000001 0 -1 1', '3f800001 0 -1 1', '40000000 0 -1 1', 'b0000000 0 -1 1', '7f800001 0 -1 1']
GOODTHR = ['00000000 0 0 1', '80000000 0 0 1', '3f800000 1000000000 1 1', '3f000000 500000000 1 2', '3e800000 250000000 1 4', '00000001 0 -1 1']

@check('A06')
def A06(ck):
    r = gen.rng(SEED, 'A06')
    s = ck.suite('a06')
    suites.apihistories(ck, s, r, 'two', q(700, 12000), ['fftw', 'kiss', 'kasan'])
    suites.apihistories(ck, s, r, 'file', q(500, 12000), ['fftw', 'kiss', 'kasan'])
    for k in range(q(60, 400)):
        s.trace(['fftw', 'kiss', 'kasan'][k % 3], interleaved(s, r, handles=range(3), steps=q(40, 80)) + ['quiesce'])
    suites.oddvalues(s, r, q(24, 120))
    # threads, with the backend that needs no preparation
    for k in range(q(24, 200)):
        nt = int(r.choice([2, 3, 4]))
        l = []
        for t in range(nt):
            l += ['@%d %s' % (t, x) for x in interleaved(s, r, handles=[t * 3, t * 3 + 1], steps=q(25, 60), images=r.random() < .5)]
        s.trace(['kiss', 'tsan', 'bare', 'tsan'][k % 4], l + ['join', 'quiesce'])
    # the same kind of call in all threads, over and over
    for m in METHODS:
        for k in range(q(6, 24)):
            v = ['tsan', 'kiss', 'tsan', 'fftw', 'bare', 'tsan'][k % 6]
            nt, n = int(r.integers(2, 5)), q(60, 300)
            szs = [(int(r.integers(5, 15)), int(r.integers(5, 15))) for _ in range(nt)]
            ims = [[random_image(s, r, w, h, 1) for _ in range(2)] for w, h in szs]
            if k % 2: szs, ims = [szs[0]] * nt, [ims[0]] * nt
            l = ['palloc 0', 'prange 0 1', 'pthr 0 %s' % gen.thr_args(0, 1)]
            mk = ['create %d %s %d %d 0 1' % (t, m, w, h) for t, (w, h) in enumerate(szs)]
            shared = v == 'fftw' or k % 3 == 0       # (planning with FFTW is not for threads)
            l += (mk if shared else []) + ['note fork'] + ([] if shared else ['@%d %s' % (t, x) for t, x in enumerate(mk)])
            for t, (w, h) in enumerate(szs):
                for j in range(4): l += ['@%d %s' % (t, x) for x in ('analyzen %d %d %d' % (t, ims[t][j % 2], n), 'results %d 15' % t)]
                if v != 'fftw': l += ['@%d detect %d %d 15 %s 0 2 %d %d' % (t, w, h, m, *ims[t])] * 4
            s.trace(v, l + ([] if shared else ['@%d destroy %d' % (t, t) for t in range(nt)]) + ['join'] + (['destroy %d' % t for t in range(nt)] if shared else []) + ['pfree 0', 'quiesce'])
    for k in range(q(18, 90)):
        v = ['tsan', 'kiss', 'tsan', 'fftw', 'bare', 'tsan'][k % 6]
        l = []
        F = [native(r, ['PFM', 'Y4M', 'PGM'][k % 3], n=3, mx=5) for _ in range(2)]
        F = [(f, s.file(f.data, 'a.' + f.ext)) for f in F]
        for t in range(4):
            f, fid = F[t % 2]
            for j in range(8):
                l += ['@%d %s' % (t, x) for x in [openline(r, fid[1], f.ext, fid[0], t)] + [opline(r, ['R', 'R', 'S1'][r.integers(3)], t) for _ in range(3)] + ['close %d' % t, 'readimg %s NULL %d' % (fid[1], fid[0])]]
        s.trace(v, l + ['join', 'quiesce'])
    ck.run(s)

def interleaved(s, r, handles, steps, images=True):
    """Random calls on several parameter sets, analyses and images, all closed at the end."""
    handles = list(handles)
    if not hasattr(s, 'pool'):
        s.pool = []
        for w, h in ((5, 4), (4, 5), (8, 3), (1, 6), (7, 7), (12, 2)):
            s.pool.append((w, h, [random_image(s, r, w, h, 2) for _ in range(3)], badimages(s, r, w, h)))
        s.fpool = [(f, s.file(f.data, 'a.' + f.ext)) for f in (native(r) for _ in range(12))] + [(f, s.file(f.data, 'a.' + f.ext)) for f in (tailed(r, n, t, False) for n in range(3) for t in ('trunc', 'bad', 'eof'))]
    par, an, im, l = set(), {}, {}, []
    for _ in range(steps):
        h = handles[r.integers(len(handles))]
        c = r.integers(0, 15)
        if c == 0:
            if h in par: l.append('pfree %d' % h); par.discard(h)
            else: l.append('palloc %d' % h); par.add(h)
        elif c == 1 and h in par:
            l.append(['prange %d %d' % (h, r.choice([0, 1, 2, 3, 12])), 'pthr %d %s' % (h, gen.thr_args(*rand_thr(r))), 'pfilt %d %d' % (h, r.choice([0, 0, 1, 2, 32, 40])), 'pthr %d %s' % (h, BADTHR[r.integers(len(BADTHR))])][r.integers(4)])
        elif c in (2, 3):
            if h in an:
                if r.random() < .3: l.append('destroy %d' % h); del an[h]
            else:
                w, hh, good, bad = s.pool[r.integers(len(s.pool))]
                p = sorted(par)[r.integers(len(par))] if par and r.random() < .7 else 'NULL'
                l.append('create %d %s %d %d %s 1' % (h, METHODS[r.integers(4)], w, hh, p)); an[h] = (good, bad)
        elif c in (4, 5, 6) and h in an:
            good, bad = an[h]
            l.append('analyze %d %d' % (h, good[r.integers(3)] if r.random() < .85 else bad[0]))
        elif c in (7, 8) and h in an:
            l.append('results %d %d' % (h, r.choice([15, 15, 3, 12, 10, 1, 0])))
        elif images and c in (9, 10):
            if h in im:
                if r.random() < .3: l.append('close %d' % h); del im[h]
            else:
                f, fid = s.fpool[r.integers(len(s.fpool))]
                l.append(openline(r, fid[1], f.ext, fid[0], h)); im[h] = f
        elif c in (11, 12, 13) and h in im:
            l.append(opline(r, READOPS[r.integers(len(READOPS))] if r.random() < .5 else 'R', h))
        elif c == 14:
            w, hh, good, bad = s.pool[r.integers(len(s.pool))]
            p = sorted(par)[r.integers(len(par))] if par and r.random() < .5 else 'NULL'
            l.append('detect %d %d 15 %s %s 2 %d %d' % (w, hh, METHODS[r.integers(4)], p, good[0], good[1]))
    return l + ['destroy %d' % h for h in an] + ['close %d' % h for h in im] + ['pfree %d' % h for h in par]

@check('A07')
def A07(ck):
    r = gen.rng(SEED, 'A07')
    s = ck.suite('a07')
    suites.apihistories(ck, s, r, 'file', q(700, 12000), ['fftw', 'kiss', 'bare', 'kasan'], .2)
    w, h = 6, 5
    good = [random_image(s, r, w, h, 2) for _ in range(2)]
    bad = badimages(s, r, w, h)
    fgood = s.file(b''.join(gen.pfm_frame(s.pix[j - 1]) for j in good), 'a.pfm', fi=good)
    fbad = s.file(b''.join(gen.pfm_frame(s.pix[j - 1]) for j in (good[0], bad[0], good[1])), 'b.pfm', fi=[good[0], bad[0], good[1]])
    ftrunc = s.file((gen.pfm_frame(s.pix[good[0] - 1]) * 2)[:-3], 'c.pfm', fi=good)
    fempty = s.file(gen.y4m_header(w, h), 'd.y4m')
    fhead = s.file(b'P5\n0 0\n255\n', 'e.pgm')
    ftype = s.file(b'P5\n1 1\n255\n\0', 'e.xyz')
    V = ['fftw', 'kiss', 'bare']
    for v in V:
        for mask in range(16):
            for m in ('NULL', 'sign', 'orig'):
                l = ['palloc 0', 'prange 0 2', 'create 0 %s %d %d 0 1' % (m, w, h), 'results 0 %d' % mask, 'results NULL %d' % mask, 'analyze 0 %d' % good[0], 'results 0 %d' % mask,
                     'analyze 0 NULL', 'analyze NULL %d' % good[0], 'analyze NULL NULL', 'analyze 0 %d' % bad[0], 'results 0 %d' % mask, 'results NULL %d' % mask]
                for p in ('NULL', '0'):
                    l += ['detect %d %d %d %s %s 0 NULL' % (w, h, mask, m, p), 'detect %d %d %d %s %s 1 NULL' % (w, h, mask, m, p), 'detect %d %d %d %s %s 0' % (w, h, mask, m, p),
                          'detect %d %d %d %s %s 1 %d' % (w, h, mask, m, p, good[0]), 'detect %d %d %d %s %s 3 %d %d %d' % (w, h, mask, m, p, good[0], good[1], good[0]),
                          'detect %d %d %d %s %s 2 %d %d' % (w, h, mask, m, p, good[0], bad[0]), 'detect %d %d %d %s %s 2 %d %d' % (w, h, mask, m, p, bad[1], good[0]),
                          'detect 0 %d %d %s %s 1 %d' % (h, mask, m, p, good[0]), 'detect %d 0 %d %s %s 1 %d' % (w, mask, m, p, good[0]), 'detect 0 0 %d %s %s 1 %d' % (mask, m, p, good[0]),
                          'detect 18446744073709551615 2 %d %s %s 1 %d' % (mask, m, p, good[0]), 'detect 4294967296 4294967296 %d %s %s 1 %d' % (mask, m, p, good[0]),
                          'detect 3 9223372036854775808 %d %s %s 1 %d' % (mask, m, p, good[0]), 'detect 2147483648 2147483649 %d %s %s 1 %d' % (mask, m, p, good[0])]
                    for f, t in ((fgood, 'NULL'), (fbad, 'NULL'), (ftrunc, 'NULL'), (fempty, 'NULL'), (fhead, 'pgm'), (fgood, 'y4m'), (fgood, 'image/x-portable-floatmap')):
                        l.append('dfile %s %s %d %s %s %d' % (f[1], t, mask, m, p, f[0]))
                    l += ['dfile NULL NULL %d %s %s 0' % (mask, m, p), 'dfile /nonexistent/x.pfm NULL %d %s %s 0' % (mask, m, p)]
                    if v == 'bare': l.append('dfile %s NULL %d %s %s %d' % (ftype[1], mask, m, p, ftype[0]))
                l += ['results 0 15', 'destroy 0', 'destroy NULL', 'pfree 0', 'quiesce']
                s.trace(v, l)
        for err in (0, 1):
            for (a, b) in ((0, 5), (5, 0), (0, 0), (2**64 - 1, 2**64 - 1), (2**63, 2), (2**32, 2**32), (2**31, 2**33), (3, 2**62), (2**64 - 1, 1), (1, 2**64 - 1), (6, 5)):
                for m in ('NULL', 'mag'):
                    l = ['create 0 %s %d %d NULL %d' % (m, a, b, err)]
                    if (a, b) == (6, 5): l += ['analyze 0 %d' % good[0], 'results 0 15', 'destroy 0']
                    s.trace(v, l + ['quiesce'])
    # one dimension alone over what the backends' integers hold (the coefficients are allocated, but never touched)
    if suites.roomy():
        for v in ('fftw', 'kiss'):
            big = [2**31, 2**31 + 6, 2**32, 2**32 + 5] + ([2**30, 2**30 + 1] if v == 'kiss' else [])
            for x in big:
                for a, b in ((x, 1), (1, x)) + (((x, 2), (2, x)) if x < 2**31 else ()):
                    s.trace(v, ['create 0 %s %d %d NULL 1' % (METHODS[r.integers(4)], a, b), 'detect %d %d 15 sign NULL 1 %d' % (a, b, good[0]), 'quiesce'])
    # running out of memory at any point
    for v in V:
        for mask in (15, 3, 12, 11, 14, 2, 8, 10, 0):
            for m in ('NULL', 'orig') if mask in (15, 3, 12) else ('mag',):
                pre = ['palloc 0', 'prange 0 1', 'pthr 0 %s' % gen.thr_args(0, 1), 'create 0 %s %d %d 0 1' % (m, w, h), 'analyze 0 %d' % good[0]]
                for call, n in (('results 0 %d' % mask, 3), ('detect %d %d %d %s 0 2 %d %d' % (w, h, mask, m, good[0], good[1]), 11), ('dfile %s NULL %d %s 0 %d' % (fgood[1], mask, m, fgood[0]), 17)):
                    l = list(pre)
                    for fk in range(1, n + 1):
                        l += ['fault %d %d' % (fk, fk % 2), call, 'fault 0 0']
                    s.trace(v, l + [call, 'destroy 0', 'pfree 0', 'quiesce'])
    # image handles: what calls without a handle, buffer or error pointer do
    for v in V + ['kasan']:
        for err in (0, 1):
            f = fgood
            s.trace(v, ['read NULL g %d' % err, 'seek NULL 1 1 %d' % err, 'seek NULL 0 0 %d' % err, 'close NULL', 'open 0 %s NULL %d %d' % (f[1], 13 + 2 * err, f[0]), 'read 0 n %d' % err, 'read 0 b %d' % err, 'seek 0 0 1 %d' % err, 'seek 0 1 1 %d' % err, 'read 0 g %d' % err, 'seek 0 5 0 %d' % err,
                        'close 0', 'quiesce'])
    ck.run(s)

@check('A08')
def A08(ck):
    r = gen.rng(SEED, 'A08')
    s = ck.suite('a08')
    suites.apihistories(ck, s, r, 'two', q(900, 12000), ['fftw', 'range3', 'kiss'])
    im = {}
    for w, h in ((14, 6), (26, 3), (5, 27), (9, 9)):
        im[w, h] = [random_image(s, r, w, h, int(r.integers(1, 4))) for _ in range(3)]
    # all values of the filter and the boundary values of the others
    for v in ('fftw', 'range3'):
        l = ['palloc 0'] + ['pfilt 0 %d' % k for k in range(256)] + ['pfilt NULL %d' % k for k in (0, 31, 32, 255)] + ['prange 0 %d' % k for k in (0, 1, 2, 12, 2**31, 2**32, 2**64 - 1)] + ['prange NULL 0', 'prange NULL 3']
        l += ['pthr 0 ' + t for t in BADTHR + GOODTHR] + ['pthr NULL ' + GOODTHR[2], 'pthr NULL ' + BADTHR[0]] + ['pfree 0', 'quiesce']
        s.trace(v, l)
        # ranges at which sums and products of them wrap
        for k in (31, 32, 62, 63, 64):
            for d in (-2, -1, 0, 1, 2, 5):
                if k < 64 or d < 0:
                    (w, h), ii = list(im.items())[r.integers(len(im))]
                    s.trace(v, ['palloc 0', 'prange 0 %d' % (2**k + d), 'pthr 0 %s' % gen.thr_args(0, 1)] + ['detect %d %d 15 %s 0 1 %d' % (w, h, x, ii[0]) for x in METHODS] + ['pfree 0', 'quiesce'])
    for k in range(q(150, 900)):
        (w, h), ii = list(im.items())[r.integers(len(im))]
        l, n = ['palloc 0', 'palloc 1'], 0
        for j in range(int(r.integers(2, 14))):
            c, p = r.integers(0, 12), r.integers(2)
            if c < 2: l.append('prange %d %d' % (p, r.choice([0, 1, 2, 3, 12, 12, 13])))
            elif c < 4: l.append('pthr %d %s' % (p, gen.thr_args(*rand_thr(r)) if r.random() < .6 else (BADTHR + GOODTHR)[r.integers(len(BADTHR + GOODTHR))]))
            elif c < 6: l.append('pfilt %d %d' % (p, r.choice([0, 0, 0, 1, 2, 3, 4, 31, 32, 33, 128, 255])))
            elif n < 4:
                l += ['create %d %s %d %d %s 1' % (n, METHODS[r.integers(4)], w, h, p if r.random() < .8 else 'NULL'), 'analyze %d %d' % (n, ii[r.integers(3)])]
                n += 1
            else: l.append('results %d 15' % r.integers(n))
        if r.random() < .5: l += ['pfree 0', 'pfree 1'] + ['results %d 15' % j for j in range(n)]
        else: l += ['results %d 15' % j for j in range(n)] + ['detect %d %d 15 %s 0 1 %d' % (w, h, METHODS[r.integers(4)], ii[0]), 'create 5 sign %d %d 0 1' % (w, h), 'destroy 5', 'pfree 0', 'pfree 1']
        l += ['destroy %d' % j for j in range(n)] + ['quiesce']
        s.trace(['fftw', 'range3', 'kiss'][k % 3], l)
    ck.run(s)

@check('A09')
def A09(ck):
    r = gen.rng(SEED, 'A09')
    s = ck.suite('a09')
    for k in range(q(150, 900)):
        w, h = (int(r.integers(1, 70)), int(r.integers(1, 7))) if k % 2 else (int(r.integers(1, 7)), int(r.integers(1, 70)))
        R = int(r.choice([1, 1, 2, 3, 4, 12]))
        m = METHODS[r.integers(4)]
        im = [random_image(s, r, w, h, R) for _ in range(2)]
        f = int(r.choice([0, 1, 1, 2, 2, 3, 3, 4, 5, 6, 7, 8, 12, 16, 24, 31]))
        thr = gen.thr_args(0, 1) if r.random() < .6 else gen.thr_args(*rand_thr(r))
        l = ['palloc 0', 'prange 0 %d' % R, 'pthr 0 %s' % thr, 'create 1 %s %d %d 0 1' % (m, w, h), 'pfilt 0 %d' % f, 'create 0 %s %d %d 0 1' % (m, w, h)]
        for i in im: l += ['analyze 0 %d' % i, 'analyze 1 %d' % i, 'results 0 15', 'results 1 15']
        l += ['detect %d %d 15 %s 0 1 %d' % (w, h, m, im[0]), 'destroy 0', 'destroy 1', 'pfree 0', 'quiesce']
        s.trace(['fftw', 'kiss'][r.integers(2)], l)
    ck.run(s)

@check('A10')
def A10(ck):
    r = gen.rng(SEED, 'A10')
    s = ck.suite('a10')
    for k in range(q(100, 600)):
        w, h = sizes(r, 26)
        R = int(r.choice([1, 2, 3, 5, 12]))
        m = METHODS[k % 4]
        nf = int(r.choice([1, 1, 2]))
        l = ['palloc 0', 'prange 0 %d' % R, 'pthr 0 %s' % (gen.thr_args(0, 1) if r.random() < .6 else gen.thr_args(*rand_thr(r)))]
        im = [random_image(s, r, w, h, R, ['odd', 'wide', 'any', 'steps'][r.integers(4)]) for _ in range(nf)]
        fr = [np.array(s.images[i - 1]['c']) for i in im]
        # exact powers of two commute with every rounding; others keep the spectrum of integers exact
        # (methods that look at magnitudes take very small coefficients to be zero, so only sign and zerox get tiny ones)
        for sc in [1.0, -1.0] + [float(x) for x in r.choice([2.0**40, 3.0, -0.37, 1e4, 255.0, -2.0**60, -1e12] + ([2.0**-60, -2.0**-20, -1e-3, 1e-12] if m != 'mag' else [0.25, -2.0**-10]), 2)]:
            for tr in (False, True):
                ids = []
                for i, c in zip(im, fr):
                    p = (s.pix[i - 1].astype(float) * sc).astype(np.float32)
                    cc = c.T if tr else c
                    ids.append(s.image(p.T if tr else p, np.sign(sc).astype(int) * cc))
                a, b = (h, w) if tr else (w, h)
                l += ['create 0 %s %d %d 0 1' % (m, a, b)] + ['analyze 0 %d' % i for i in ids] + ['results 0 15', 'destroy 0']
        s.trace(['fftw', 'kiss'][r.integers(2)], l + ['pfree 0', 'quiesce'])
    ck.run(s)

@check('A11')
def A11(ck):
    r = gen.rng(SEED, 'A11')
    s = ck.suite('a11')
    V = ['fftw', 'kiss', 'bare', 'cD', 'cL', 'iF', 'kD', 'kFF', 'range3', 'nosb', 'pmax32', 'noff', 'omit', 'img']
    suites.detection(s, r, V, q(14, 80))
    for k in range(q(6, 30)):   # the default range
        w, h = int(r.integers(24, 32)), int(r.integers(5, 32))
        i = random_image(s, r, w, h, 12)
        for v in V:
            s.trace(v, ['palloc 0', 'pthr 0 %s' % gen.thr_args(0, 1), 'create 0 %s %d %d 0 1' % (METHODS[k % 4], w, h), 'create 1 %s %d %d NULL 1' % (METHODS[k % 4], w, h), 'prange 0 3', 'create 2 %s %d %d 0 1' % (METHODS[k % 4], w, h)]
                    + ['analyze %d %d' % (j, i) for j in range(3)] + ['results %d 15' % j for j in range(3)] + ['destroy %d' % j for j in range(3)] + ['detect %d %d 15 NULL NULL 1 %d' % (w, h, i), 'pfree 0', 'quiesce'])
    for k in range(q(6, 40)):
        n = int(r.choice([1, 2, 3])); w, h = sizes(r, 16)
        im = [random_image(s, r, w, h, 2) for _ in range(n)]
        fid = s.file(b''.join(gen.pfm_frame(s.pix[j - 1]) for j in im), 'a.pfm', fi=im)
        for v in V:
            s.trace(v, ['queries', 'dfile %s NULL 15 %s NULL %d' % (fid[1], METHODS[k % 4], fid[0]), 'readimg %s NULL %d' % fid[::-1], 'quiesce'])
    # faint and bright images: scaling by a power of two commutes with every rounding
    for k in range(q(8, 40)):
        w, h = sizes(r, 20)
        m = METHODS[k % 4]
        i = random_image(s, r, w, h, 2, ['odd', 'wide', 'any', 'steps'][r.integers(4)])
        c = np.array(s.images[i - 1]['c'])
        top = 126 - int(np.ceil(np.log2(max(1, np.abs(s.pix[i - 1]).max()))))
        for sc in (2.0**-10, -2.0**40, -2.0**-60 if m != 'mag' else -2.0**-8, 2.0**top):
            j = s.image((s.pix[i - 1].astype(float) * sc).astype(np.float32), np.sign(sc).astype(int) * c)
            for v in V if sc < 2.0**80 else ('cD', 'cL', 'kD'):    # sums beyond the range of float
                s.trace(v, ['palloc 0', 'prange 0 2', 'pthr 0 %s' % gen.thr_args(0, 1), 'create 0 %s %d %d 0 1' % (m, w, h), 'analyze 0 %d' % j, 'results 0 15', 'destroy 0', 'pfree 0', 'quiesce'])
    # under a pixel limit
    for k in range(q(20, 100)):
        w = int(r.integers(1, 12)); h = max(1, 48 // w - int(r.integers(0, 2)))
        if w * h > 48: continue
        i = random_image(s, r, w, h, 1)
        for v in ('pmax', 'pmaxk'):
            s.trace(v, ['palloc 0', 'prange 0 1', 'pthr 0 %s' % gen.thr_args(0, 1), 'create 0 %s %d %d 0 1' % (METHODS[k % 4], w, h), 'analyze 0 %d' % i, 'results 0 15', 'destroy 0', 'pfree 0', 'quiesce'])
    ck.run(s)
    s = ck.suite('a11large')
    suites.large(s, r, ['pmax32'], METHODS, ((3, 66000, 1),) if not THOROUGH else ((3, 66000, 1), (66000, 3, 1), (16500, 9, 4)))
    ck.run(s)
