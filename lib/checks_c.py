"""The checks of the command line tools."""
from core import *
import json, re
import gen, suites, formats
from suites import *
from formats import png, pil, claim
from tools import *
from checks import check, q, CHECKS
from checks_r import pick, proj, NV

def arg(r, letter, text):
    """-x text, in either form."""
    return ['-' + letter + text] if text != '' and r.random() < .4 else ['-' + letter, text]
def ov(r, v): return opt('v', arg(r, 'v', str(v)), v=v)
def om(r, m): return opt('m', arg(r, 'm', m), s=m)
def ot(r, t): return opt('t', arg(r, 't', t), b=list(t.encode()))
def oR(r, t): return opt('R', arg(r, 'R', t), b=list(t.encode()))
def ox(r, p, qq, text=None):
    a = gen.thr_args(p, qq).split()
    return opt('x', arg(r, 'x', text or repr(100 * p / qq)), k='t', ppb=int(a[1]), p=int(a[2]), q=int(a[3]))
def num(r, n):
    """Ways to write a number."""
    return pick(r, ['0', '00', '000', ' ', '+', '+0']) + str(n) if r.random() < .12 else str(n)
def orange(r, n, text=None): return opt('r', arg(r, 'r', text or num(r, n)), k='n', n=min(n, 2**30))
def of(r, n): return opt('f', arg(r, 'f', num(r, n)), k='n', n=n)
def oo(r, n): return opt('o', arg(r, 'o', num(r, n)), k='n', n=min(n, 2**30))
def on(r, n): return opt('n', arg(r, 'n', num(r, n)), k='n', n=min(n, 2**30))
def op(r): return opt('p', ['-p'])
def auto(r): return opt('f', arg(r, 'f', 'auto'), k='auto')
BADX = ['', 'abc', '-1', '-0.01', '100.1', '101', 'nan', '-nan', 'inf', '-inf', '1e99', 'x50', '%']
BADR = ['', 'abc', '0', '00', 'x3', '-0']
BADF = ['', 'abc', '32', '33', '255', '256', '288', '65536', '4294967296', '18446744073709551616', 'Auto', 'automatic']
BADO = ['', 'abc', 'x1', '.', '-']
BADN = ['', 'abc', '0', '000', 'x1', '-']
BADM = ['', 'Sign', 'sig', 'signs', 'mag ', 'zero', 'default', 'SIGN', 'list']
BADRD = ['', 'PG', 'PGMX', 'jpeg', 'png', 'List', 'lists', ' PGM', 'ffmpegg']
def badopt(r):
    c = r.integers(8)
    if c == 0: t = pick(r, BADX); return opt('x', ['-x', t], k='bad')
    if c == 1: t = pick(r, BADR); return opt('r', ['-r', t], k='bad')
    if c == 2: t = pick(r, BADF); return opt('f', ['-f', t], k='bad')
    if c == 3: return opt('o', ['-o', pick(r, BADO)], k='bad')
    if c == 4: return opt('n', ['-n', pick(r, BADN)], k='bad')
    if c == 5: t = pick(r, BADM); return opt('m', ['-m', t], s=t or '(empty)')
    if c == 6: t = pick(r, BADRD); return opt('R', ['-R', t], b=list(t.encode()))
    return opt('?', [pick(r, ['-z', '-H', '-0', '-q', '--help', '--version', '-M'])] if r.random() < .9 else ['-zp'])

def shuffle(r, l): return [l[i] for i in r.permutation(len(l))]

def detfile(s, r, n=1, fmt=None, bad=(), w=None, h=None, R=2, tail='', name=None, ext=None):
    """A file of frames with known spectra.  Returns (number, path, extension, reader)."""
    if w is None: w, h = sizes(r, 24)
    fmt = fmt or pick(r, ['PFM', 'PFM', 'PGM', 'Y4M'])
    if fmt == 'PGM' and n != 1: fmt = 'PFM'
    if bad: fmt = 'PFM'
    ids, data, ends = [], b'', []
    if fmt == 'Y4M': data = y4m_full_header(r, w, h, b'mono')
    for k in range(n):
        if k in bad:
            i = badimages(s, r, w, h)[0]
            data += gen.pfm_frame(s.pix[i - 1])
        elif fmt == 'PFM':
            i = random_image(s, r, w, h, R)
            data += gen.pfm_frame(s.pix[i - 1], bool(r.integers(2)))
        else:
            p8 = np.rint(np.clip(random_pixels(r, w, h), 0, 255)).astype(np.uint8)
            i = s.image((p8 / np.float32(255)).astype(np.float32), *gen.project(p8 / 255))
            data += gen.pgm(p8) if fmt == 'PGM' else gen.y4m_frame(r, w, h, b'mono', b'', p8)
        ids.append(i); ends.append(len(data))
    if tail == 'trunc': data = data[:-1 - int(r.integers(0, min(4, w * h)))]
    elif tail: data += tail
    k, path = s.file(data, (name or pick(r, ['a', 'b.c', 'some_name'])) + ('.' + fmt.lower() if ext is None else ext), fi=ids)
    return k, path, fmt.lower(), fmt

def random_pixels(r, w, h):
    y, x = np.mgrid[0:h, 0:w]
    return 128 + 60 * np.sin(x * r.uniform(.1, 1.5) + r.uniform(0, 6)) * np.cos(y * r.uniform(.1, 1.5)) + r.normal(0, 10, (h, w))

def badimages(s, r, w, h):
    from checks import badimages as f
    return f(s, r, w, h)

def goodopts(r):
    l = []
    if r.random() < .7: l.append(om(r, pick(r, METHODS)))
    if r.random() < .7: l.append(orange(r, int(r.choice([1, 2, 2, 3, 4, 12])), None) if r.random() < .9 else orange(r, 7, pick(r, ['007', ' 7', '+7'])))
    if r.random() < .7:
        c = r.integers(5)
        l.append(ox(r, 0, 1, pick(r, ['0', '0.0', '-0', '+0', '0e5', '.0']))) if c == 0 else l.append(ox(r, 1, 2, pick(r, ['50', '5e1', '50.0', '+50', '050']))) if c == 1 else l.append(ox(r, *rand_thr(r)))
    if r.random() < .25: l.append(of(r, int(r.choice([0, 1, 2, 3, 31]))))
    elif r.random() < .1: l.append(auto(r))
    if r.random() < .2: l.append(op(r))
    if l and r.random() < .2: l.append(dict(l[r.integers(len(l))]))      # given twice
    return l

# --------------------------------------------------------------------------- argument lists, from the model
def token(r, t):
    """An option of MCCli as one of ours."""
    if t[1] in 'phV': return opt(t[1], [t])
    if t == '-z': return opt('?', [t])
    o, x = t[1], t[3:]
    if o == 'v': return ov(r, int(x))
    if o == 'm': return om(r, x)
    if o == 't': return ot(r, x)
    if o == 'R': return oR(r, x)
    if o == 'f' and x == 'auto': return auto(r)
    if not x.isdigit(): return opt(o, ['-' + o, x], k='bad')
    if o == 'x': return ox(r, int(x), 100, x)
    return {'r': orange, 'f': of, 'o': oo, 'n': on}[o](r, int(x))

def modelargs(ck, s, r, group, n, variants):
    """Runs n of the argument lists and sources of MCCli (those with at most two options all, if n allows)."""
    out = ck.model('MCCli', cfg=os.path.join(SPEC, 'mc', 'MCCli_%s%s.cfg' % (group, '_more' if THOROUGH else '')), timeout=3000)
    ids = {}
    for m in re.finditer(r'^"IMAGE (\d) (<<.*>>)"$', out, re.M):
        c = np.array(json.loads(m.group(2).replace('<<', '[').replace('>>', ']')))
        ids[int(m.group(1))] = s.image(gen.unspectrum(c), c)
    bad = gen.unspectrum(c).copy(); bad[2, 3] = np.nan
    ids[3] = s.image(bad, np.zeros(c.shape, int), 0, True)
    files = {}
    for i, t, f in re.findall(r'^"FILE (\d+) (\w+) <<(.*)>>"$', out, re.M):
        f = [ids[int(x)] for x in f.split(', ')]
        d = b''.join(gen.pfm_frame(s.pix[x - 1]) for x in f)
        d = d[:-3] if t == 'trunc' else d + b'P7' if t == 'junk' else d
        files[i] = s.file(d, 'a.pfm', fi=f)
    H = sorted(set(re.findall(r'^"ARGS (\w+) (\d+) (.*)"$', out, re.M)))
    if len(H) < 2000: raise CheckError('MCCli: %d argument lists' % len(H))
    few = [h for h in H if h[2].count(';') < 2]
    for src, i, l in [few[k] for k in r.permutation(len(few))[:n // 2]] + [H[k] for k in r.permutation(len(H))[:n // 2]]:
        opts = [token(r, t) for t in l.split(';')[:-1]]
        fid, path = files[i] if src == 'file' else (0, os.path.join(s.dir, 'nosuch.pfm'))
        s.cli(pick(r, variants), opts, src, fid, path, 'file', r)

@check('C01')
def C01(ck):
    r = gen.rng(SEED, 'C01')
    s = CliSuite('c01')
    modelargs(ck, s, r, 'args', q(800, 6000), ['fftw', 'bare', 'kiss', 'kasan'])
    for k in range(q(420, 3000)):
        fid, path, e, rd = detfile(s, r, int(r.choice([1, 1, 1, 2, 3])))
        l = goodopts(r)
        v = [-1, 0, 1, 2, 3][k % 5]
        if v != -1 or r.random() < .3: l.append(ov(r, v))
        how = pick(r, ['file', 'file', 'file', 'stdinfile', 'stdinpipe'])
        if how != 'file' or r.random() < .3: l.append(ot(r, pick(r, [e, e.upper(), {'pgm': 'image/x-portable-graymap', 'pfm': 'image/x-portable-floatmap', 'y4m': 'video/yuv4mpeg'}[e]])) if r.random() < .6 else oR(r, pick(r, [rd, rd.lower()])))
        s.cli(['fftw', 'kiss', 'fftw', 'bare', 'kasan', 'range3'][k % 6], shuffle(r, l), 'file', fid, path, how, r)
    # the last of several values counts
    for k in range(q(60, 300)):
        fid, path, e, rd = detfile(s, r)
        l = [om(r, m) for m in r.choice(METHODS, 2)] + [orange(r, int(x)) for x in r.integers(1, 5, 2)] + [ox(r, *rand_thr(r)) for _ in range(2)] + [ov(r, int(x)) for x in r.integers(-1, 4, 2)]
        s.cli(pick(r, ['fftw', 'kiss']), l, 'file', fid, path, 'file', r)
    # numbers are decimal, whatever they start with
    for t in ['08', '09', '010', '012', '+011', ' 07', '0008', '00']:
        n = int(t)
        fid, path, e, rd = detfile(s, r, w=int(r.integers(40, 60)), h=int(r.integers(36, 60)))
        s.cli(pick(r, ['fftw', 'kiss']), shuffle(r, [opt('f', ['-f', t], k='n', n=n), ox(r, 0, 1), orange(r, 2), ov(r, int(pick(r, [-1, 2, 3])))]), 'file', fid, path, 'file', r)
        if n: s.cli(pick(r, ['fftw', 'kiss']), shuffle(r, [opt('r', ['-r', t], k='n', n=n), ox(r, 0, 1), ov(r, int(pick(r, [-1, 2, 3])))]), 'file', fid, path, 'file', r)
        fid, path, e, rd = detfile(s, r, 14, fmt='PFM', w=12, h=9)
        s.cli(pick(r, ['fftw', 'kiss']), shuffle(r, [opt('o', ['-o', t], k='n', n=n), ox(r, 0, 1), orange(r, 1), op(r), ov(r, 3)]), 'file', fid, path, 'file', r)
        if n: s.cli(pick(r, ['fftw', 'kiss']), shuffle(r, [opt('n', ['-n', t], k='n', n=n), ox(r, 0, 1), orange(r, 1), op(r), ov(r, 3)]), 'file', fid, path, 'file', r)
    # lists of every length, the longest too
    for k in range(q(6, 30)):
        w, h = int(r.integers(300, 2200)), int(r.integers(1, 5))
        if k % 2: w, h = h, w
        fid, path, e, rd = detfile(s, r, fmt='PFM', w=w, h=h)
        s.cli(pick(r, ['fftw', 'kiss']), shuffle(r, [ox(r, 0, 1), orange(r, int(r.integers(1, 4))), ov(r, [-1, 2, 3][k // 2 % 3])]), 'file', fid, path, 'file', r)
    # "auto" goes by the last extension
    for k in range(q(60, 300)):
        x = ['jpg', 'jpeg', 'mp4', 'mkv', 'webp', 'webm', 'avif', 'heic', 'JPG', 'Jpeg', 'MP4', 'mKv', 'WebP', 'WEBM', 'AVIF', 'HeiC', 'jpe', 'jpeg2', 'mp', 'mp4 ', 'web', 'pjpg', 'avi', 'heif', 'gif'][k % 25]
        fid, path, e, rd = detfile(s, r, name=pick(r, ['a', 'a', 'b.png', 'c.mp4.pgm', '', 'd.webp', '.', 'e..']) + '.' + x, ext='', w=int(r.integers(30, 70)), h=int(r.integers(30, 70)))
        s.cli(pick(r, ['fftw', 'kiss']), shuffle(r, [ot(r, e) if k % 2 else oR(r, rd), auto(r), ox(r, 0, 1), ov(r, int(pick(r, [-1, 2, 3])))] + ([orange(r, int(r.integers(1, 4)))] if r.random() < .6 else [])), 'file', fid, path, 'file', r)
    # of what comes from standard input nothing is known
    # and the formats read here lose nothing
    for k in range(q(40, 200)):
        fid, path, e, rd = detfile(s, r, name=pick(r, ['a', 'a.jpg', 'b.JPEG', 'c.mp4', 'd.mkv.e', '.webp', 'f.webm', 'g.avif', 'jpg', 'h.heic.heic']), w=int(r.integers(30, 70)), h=int(r.integers(1, 40)))
        s.cli(pick(r, ['fftw', 'kiss']), shuffle(r, [auto(r), ox(r, 0, 1), ov(r, int(pick(r, [-1, 1, 2, 3])))] + ([orange(r, int(r.integers(1, 4)))] if r.random() < .6 else [])), 'file', fid, path, 'file', r)
    # images that are odd about some size, found or not
    for k in range(q(60, 400)):
        R = int(r.choice([2, 3, 12])); w, h = int(r.integers(2 * R + 2, 2 * R + 16)), int(r.integers(1, 2 * R + 16))
        c = gen.make_odd_about(gen.spectrum(r, w, h, 'odd'), int(r.integers(R, w - R)), R, 1)
        if r.random() < .3: c = np.abs(c) + 1
        if r.random() < .5: c = c.T; w, h = h, w
        i = s.image(gen.unspectrum(c), c)
        fid, path = s.file(gen.pfm_frame(s.pix[i - 1]), 'a.pfm', fi=[i])
        l = [ov(r, int(pick(r, [-1, 0, 0, 1, 2, 3])))] + ([orange(r, R)] if R != 12 or r.random() < .5 else [])
        s.cli(pick(r, ['fftw', 'kiss', 'asan']), l, 'file', fid, path, 'file', r)
    s.runjobs()
    ck.validate(s)

@check('C02')
def C02(ck):
    r = gen.rng(SEED, 'C02')
    s = CliSuite('c02')
    modelargs(ck, s, r, 'args', q(1600, 8000), ['fftw', 'bare', 'kiss', 'kasan'])
    V = ['fftw', 'bare', 'kasan', 'kiss', 'omit']
    good = [detfile(s, r, n) for n in (1, 1, 2, 3)]
    # every invalid value of each option, alone and among valid options, at every verbosity
    for k, (o, l) in enumerate([('x', BADX), ('r', BADR), ('f', BADF), ('o', BADO), ('n', BADN), ('m', BADM), ('R', BADRD)]):
        for t in l:
            b = {'m': dict(s=t or '(empty)'), 'R': dict(b=list(t.encode()))}.get(o, dict(k='bad'))
            for v in (None, 0, 1, 3):
                fid, path, e, rd = good[r.integers(len(good))]
                s.cli(pick(r, V), ([ov(r, v)] if v is not None else []) + [opt(o, ['-' + o, t], **b)], 'file', fid, path, 'file', r)
    for k in range(q(200, 1500)):
        fid, path, e, rd = good[r.integers(len(good))]
        l = goodopts(r) + [badopt(r)] + ([ov(r, int(r.integers(0, 4)))] if r.random() < .5 else [])
        c = r.integers(8)
        if c == 0: s.cli(pick(r, V), shuffle(r, l), 'none')
        elif c == 1: s.cli(pick(r, V), shuffle(r, l), 'missing', 0, os.path.join(s.dir, 'nosuch.pgm'), 'file', r)
        else: s.cli(pick(r, V), shuffle(r, l), 'file', fid, path, 'file', r)
    # a type together with a reader
    for k in range(q(20, 60)):
        fid, path, e, rd = good[r.integers(len(good))]
        s.cli(pick(r, V), shuffle(r, goodopts(r) + [ot(r, pick(r, [e, 'pgm', 'png'])), oR(r, pick(r, ['PGM', rd, 'PFM']))]), 'file', fid, path, 'file', r)
    # help, version, and lists, which other options may precede
    for k in range(q(40, 150)):
        fid, path, e, rd = good[r.integers(len(good))]
        l = goodopts(r) + ([badopt(r)] if r.random() < .4 else []) + [pick(r, [opt('h', ['-h']), opt('V', ['-V']), oR(r, 'list')])]
        s.cli(pick(r, V + ['img', 'noff']), shuffle(r, l), pick(r, ['none', 'file']), fid, path, 'file', r)
    # missing input, and missing arguments of options
    for o in 'vmtxroRnf':
        for pre in ([], [ov(r, 1)], goodopts(r)):
            s.cli(pick(r, V), pre + [opt('?', ['-' + o])], 'none')
    for k in range(6): s.cli(pick(r, V), goodopts(r), 'none')
    # unreadable, malformed, truncated and empty input
    for k in range(q(200, 1500)):
        how = pick(r, ['file', 'file', 'stdinfile', 'stdinpipe'])
        c = r.integers(7)
        name = None
        if c == 0:
            e, d = list(formats.headers(r, 60))[int(r.integers(24, 60))]
        elif c == 1:
            f = tailed(r, 0, 'trunc', True); e, d = f.ext, f.data
        elif c == 2:
            f = native(r); e, d = f.ext, f.data[:int(r.integers(0, f.start + 1))]
        elif c == 3: e, d = 'y4m', y4m_full_header(r, 3, 3, b'mono')
        elif c == 4: e, d = pick(r, ['pgm', 'pfm', 'y4m', 'png', 'jpg']), b''
        elif c == 5: e, d = pick(r, ['pgm', 'pfm', 'y4m', 'png', 'jpg']), bytes(int(x) for x in r.integers(0, 256, 40))
        else:
            fid, path, e, rd = detfile(s, r, int(r.integers(1, 4)), 'PFM', tail=pick(r, ['trunc', 'trunc', b'P', b'Pf\n1 1\n1\n', b'garbage']))
            d = None
        if d is not None: fid, path = s.file(d, 'a.' + e)
        known = c == 6
        l = ([ov(r, int(r.integers(0, 4)))] if r.random() < .6 else []) + (goodopts(r) if known else [])
        if how != 'file': l.append(ot(r, e))
        if d is not None and not unreadable(s, fid, e): continue
        s.cli(pick(r, ['bare', 'kasan', 'bare', 'fftw']), shuffle(r, l), 'file', fid, path, how, r)
    for v in V:
        for x in ([], [ov(r, 0)], [ov(r, 1)], [ot(r, 'pgm')], [oR(r, 'PGM' if v != 'omit' else 'PFM')]):
            s.cli(v, x, 'missing', 0, os.path.join(s.dir, pick(r, ['nosuch.pgm', 'nodir/x.pgm', 'nosuch.xyz'])), 'file', r)
    fid, path = s.file(b'P5\n1 1\n255\n\0', 'a.xyz')
    for x in ([], [ov(r, 0)], [ot(r, 'xyz')], [ot(r, 'text/plain')]):
        s.cli('bare', x, 'file', fid, path, 'file', r)
    s.runjobs()
    ck.validate(s)

def unreadable(s, fid, e):
    """Keep only inputs whose spectra the specification need not know: those that cannot be read to the end."""
    d = bytes(s.files[fid - 1]['b'])
    if e in ('png', 'jpg'): return True
    return not readable(d, e)
def readable(d, e):
    """Might there be a frame in it?  (Only used to leave out such inputs: their spectra are not known.)"""
    if e == 'pgm':
        m = re.match(rb'P5\s+(?:#[^\n]*\n\s*)*(\d+)\s+(\d+)\s+(\d+)\s', d)
        return bool(m) and len(d) - m.end() >= int(m.group(1)) * int(m.group(2))
    if e == 'pfm':
        m = re.match(rb'P[fF]\s+(?:#[^\n]*\n\s*)*(\d+)\s+(\d+)\s+(\S+)\s', d)
        return bool(m) and len(d) - m.end() >= 4 * int(m.group(1)) * int(m.group(2))
    return b'FRAME' in d

@check('C03')
def C03(ck):
    r = gen.rng(SEED, 'C03')
    s = CliSuite('c03')
    modelargs(ck, s, r, 'frames', q(1200, 8000), ['fftw', 'bare', 'kiss', 'kasan'])
    for n in range(1, q(5, 8)):
        for o in [None] + list(range(0, n + 3)) + [2**31, 2**32, 2**32 + 1, 2**64 - 1]:
            for m in [None] + list(range(1, n + 2)) + [2**32, 2**32 + 1, 2**64 - 1]:
                if (o or 0) > n + 2 and m is not None and m > 1: continue
                if r.random() > q(.6, 1) and n > 2: continue
                c = r.integers(4)
                tail, bad = '', ()
                if c == 1: tail = pick(r, ['trunc', b'junk', b'Pf\n1 1\n1\n\0\0\0\0\0\0'])
                if c == 2: bad = (int(r.integers(n)),)
                w, h = int(r.integers(2, 12)), int(r.integers(2, 12))
                fid, path, e, rd = detfile(s, r, n, 'PFM' if n > 1 and r.random() < .6 or bad or tail else pick(r, ['Y4M', 'PGM']) if n == 1 else 'Y4M', bad, w, h, 1, tail)
                l = [orange(r, 1), ov(r, int(pick(r, [-1, 0, 1, 2, 3, 3, 3])))] + ([oo(r, o)] if o is not None else []) + ([on(r, m)] if m is not None else []) + ([op(r)] if r.random() < .4 else [])
                if r.random() < .4: l.append(ox(r, 0, 1))
                how = pick(r, ['file', 'file', 'stdinfile', 'stdinpipe'])
                if how != 'file': l.append(ot(r, e))
                s.cli(pick(r, ['bare', 'fftw', 'kasan', 'kiss']), shuffle(r, l), 'file', fid, path, how, r)
    # many frames, with counts over what 8 and 16 bits hold
    for rep, offs, ns in ((140, (0, 255, 256, 257, 279, 280, 281), (255, 256, 257, 279)), (33000, (65535, 65536, 65537, 65999, 66000), (65535, 65536, 65537))):
        for k in range(q(1, 3)):
            fid, path, e, N = many(s, r, pick(r, ['PFM', 'Y4M']), rep, w=int(r.integers(4, 7)), h=int(r.integers(1, 5)), n=2, fi=True)
            for o, m in [(None, None)] + [(x, None) for x in offs] + [(x, 1) for x in offs[:-2]] + [(None, x) for x in ns] + [(1, x) for x in ns]:
                l = [orange(r, 1), ov(r, 3), ox(r, 0, 1)] + ([oo(r, o)] if o is not None else []) + ([on(r, m)] if m is not None else []) + ([op(r)] if r.random() < .4 else []) + ([om(r, pick(r, METHODS))] if r.random() < .5 else [])
                s.cli(pick(r, ['bare', 'fftw', 'kiss']), shuffle(r, l), 'file', fid, path, 'file', r)
    s.runjobs()
    ck.validate(s)

@check('C04')
def C04(ck):
    r = gen.rng(SEED, 'C04')
    s = CliSuite('c04')
    V = ['fftw', 'bare', 'kasan']
    for k in range(q(250, 1500)):
        f = native(r) if r.random() < .6 else tailed(r, int(r.integers(0, 4)), pick(r, ['eof', 'trunc', 'bad']), r.random() < .2)
        fid, path = s.file(f.data, 'a.' + f.ext)
        s.imgread(pick(r, V), 'file', fid, path, r.random() < .97)
    for k in range(q(60, 400)):
        e, d = next(formats.headers(r, 1)) if r.random() < .1 else list(formats.headers(r, 30))[int(r.integers(30))]
        fid, path = s.file(d, 'a.' + e)
        s.imgread(pick(r, ['kasan', 'bare']), 'file', fid, path)
    for k in range(q(20, 100)):
        c, d = formats.PNGTYPES[r.integers(len(formats.PNGTYPES))]
        data, sums, mx = png(r, small(r), small(r), c, d, bool(r.integers(2)), False)
        fid, path = s.file(data, 'a.png', x=claim(['libpng'], [sums], mx))
        s.imgread('fftw', 'file', fid, path)
    for rep in (90, 100):
        fid, path, e, N = many(s, r, ['PFM', 'Y4M'][rep % 2], rep, n=3)
        s.imgread(pick(r, V), 'file', fid, path)
    # what was in the output file is not kept
    for k in range(q(12, 60)):
        f = native(r) if k % 2 else tailed(r, int(r.integers(0, 4)), pick(r, ['eof', 'trunc']), False)
        fid, path = s.file(f.data, 'a.' + f.ext)
        s.imgread(pick(r, V), 'file', fid, path, True, old=[b'', b'Pf\n1 1\n-1.0\n\0\0\0\0' * 30, b'x' * 100000][k % 3])
    # images of more than 65536 pixels
    for w, h in q([(330, 201)], [(330, 201), (66000, 1), (2, 33000), (257, 256)]):
        f = native(r, pick(r, ['PGM', 'Y4M']), n=1, w=w, h=h, csp=b'mono')
        fid, path = s.file(f.data, 'a.' + f.ext)
        s.imgread(pick(r, ['fftw', 'bare']), 'file', fid, path)
    for v in V: s.imgread(v, 'missing', 0, os.path.join(s.dir, 'nosuch.pgm'))
    s.runjobs()
    ck.validate(s)

def modelfiles(s, out):
    """The files MCTools prints: number -> (number, path)."""
    ids = {}
    for m in re.finditer(r'^"IMAGE (\d) (<<.*>>)"$', out, re.M):
        c = np.array(json.loads(m.group(2).replace('<<', '[').replace('>>', ']')))
        ids[int(m.group(1))] = s.image(gen.unspectrum(c), c)
    bad = gen.unspectrum(c).copy(); bad[1, 3] = np.inf
    ids[3] = s.image(bad, np.zeros(c.shape, int), 0, True)
    files = {0: (0, os.path.join(s.dir, 'nosuch.pfm'))}
    for i, t, f in re.findall(r'^"FILE (\d+) (\w+) <<(.*)>>"$', out, re.M):
        f = [ids[int(x)] for x in f.split(', ')]
        d = b''.join(gen.pfm_frame(s.pix[x - 1]) for x in f)
        d = d[:-3] if t == 'trunc' else d + b'P7' if t == 'junk' else d
        files[int(i)] = s.file(d, 'a.pfm', fi=f)
    return files

@check('T01')
def T01(ck):
    r = gen.rng(SEED, 'T01')
    s = CliSuite('t01')
    V = ['fftw', 'kiss', 'fftw', 'bare', 'kasan']
    out = ck.model('MCTools', cfg=os.path.join(SPEC, 'mc', 'MCTools_profile.cfg'))
    files = modelfiles(s, out)
    H = sorted(set(re.findall(r'^"DICT (.+)"$', out, re.M)))
    if len(H) < 300: raise CheckError('MCTools: %d dictionaries' % len(H))
    for k in r.permutation(len(H))[:q(110, len(H))]:
        items, text = [], ''
        for f, kind, l in re.findall(r'(\d+) (\w+)([^;]*);', H[k]):
            fid, path = files[int(f)]
            kw, kh = ([int(x) for x in t.split()] for t in l.split('/'))
            items.append({'src': 'file' if fid else 'missing', 'file': fid, 'path': path, 'pb': list(os.path.basename(path).encode()), 'k': kind, 'kw': kw, 'kh': kh})
            text += path + '\n' + ' '.join(map(str, kw)) + '\n' + ('' if kind == 'cut' else '\n' if kind == 'bad' else ' '.join(map(str, kh)) + '\n\n')
        s.profile(pick(r, V), items, text)
    def image(found):
        """A file, and sizes it may be found to have."""
        w, h = int(r.integers(30, 75)), int(r.integers(2, 40))
        if r.random() < .5: w, h = h, w
        at = [[], []]
        if not found:
            fid, path, e, rd = detfile(s, r, int(r.choice([1, 1, 2])), w=w, h=h, tail='trunc' if r.random() < .05 else '')
            return fid, path, w, h, at
        ids, data = [], b''
        for _ in range(int(r.choice([1, 1, 1, 2]))):
            c = gen.spectrum(r, w, h, 'odd')
            for x in (0, 1):
                L = c.shape[1 - x]
                if L < 30 or r.random() < .2: continue
                at[x] = at[x] or sorted({int(y) for y in r.integers(12, L - 12, int(r.integers(1, 4)))})
                for y in (at[x] if r.random() < .5 else at[x][::-1]): c = gen.make_odd_about(c, y, 12, 1 - x, r, float(r.choice([1, 1, .95, .9])))
            i = s.image(gen.unspectrum(c), c)
            ids.append(i); data += gen.pfm_frame(s.pix[i - 1])
        fid, path = s.file(data, 'a.pfm', fi=ids)
        return fid, path, w, h, at
    def sizes_(L, at):
        l = {x for x in at if r.random() < .8} | {int(x) for x in r.integers(1, L + 3, int(r.choice([0, 0, 1, 2, 5])))}
        l = sorted(l or {L // 2 + 1})
        return l if r.random() < .6 else l[::-1] if r.random() < .5 else shuffle(r, l)
    for k in range(q(120, 1000)):
        items, text = [], '\n' * int(r.choice([0, 0, 1, 2]))
        for _ in range(int(r.choice([1, 1, 2, 3, 4]))):
            c = r.random()
            it = {'src': 'file', 'file': 0, 'k': 'sizes', 'kw': [], 'kh': []}
            if c < .06: w, h, at = 5, 5, [[], []]; it.update(src='missing', path=os.path.join(s.dir, 'nosuch.pfm'))
            elif c < .1:
                fid, path, e, rd = detfile(s, r, 2, bad=(int(r.integers(2)),), w=6, h=5); w, h, at = 6, 5, [[], []]
                it.update(file=fid, path=path)
            elif c < .14:
                fid, path = s.file(b'P5 3 3 255 12', 'a.' + pick(r, ['pgm', 'pfm', 'xyz', 'y4m'])); w, h, at = 5, 5, [[], []]
                it.update(file=fid, path=path)
            else:
                fid, path, w, h, at = image(r.random() < .85); it.update(file=fid, path=path)
            it.update(pb=list(os.path.basename(it['path']).encode()), kw=sizes_(w, at[0]), kh=sizes_(h, at[1]))
            t = [' '.join(map(str, it['kw'])), ' '.join(map(str, it['kh']))]
            if r.random() < .05:
                it['k'] = pick(r, ['bad', 'cut'])
                if it['k'] == 'bad': t[r.integers(2)] = pick(r, ['', 'x', 'wide', '-', '12 x'])
            items.append(it)
            if it['k'] == 'cut': text += it['path'] + '\n' + pick(r, ['', t[0] + '\n']); break
            text += it['path'] + '\n' + t[0] + '\n' + t[1] + '\n' + '\n' * int(r.choice([0, 1, 1, 2]))
        s.profile(pick(r, V), items, text)
    s.profile('fftw', [], None)
    s.profile('fftw', [], '', os.path.join(s.dir, 'nosuch.txt'))
    s.runjobs()
    ck.validate(s)

@check('V01')
def V01(ck):
    r = gen.rng(SEED, 'V01')
    s = CliSuite('v01')
    V = ['fftw', 'kiss', 'fftw', 'bare']
    B = lambda t: list(t.encode())
    COLORS = ['red', '#12abEF', 'rgba(1, 2, 3, 0.5)', 'light blue', '$x', "a'b", '*', 'none']
    def own(r, o):
        """An option of the script: its words and what it is."""
        if o == 'l': n = int(r.choice([0, 1, 7, 10, 49, 51, 100, 1000, 70000])); t = str(n); x = {'n': n}
        elif o == 'c': t = pick(r, COLORS); x = {'b': B(t)}
        elif o == 't': t = pick(r, ['1', '2', '10', '0.5', '3.25']); x = {'b': B(t)}
        return ['-' + o + t] if r.random() < .4 else ['-' + o, t], dict(x, o=o)
    def forresdet(r):
        l = []
        if r.random() < .4: l.append(om(r, pick(r, ['sign', 'mag', 'orig', 'zerox'])))
        if r.random() < .4: l.append(orange(r, int(r.integers(1, 7))))
        if r.random() < .4: l.append(ox(r, int(r.integers(1, 9)), 16))
        if r.random() < .2: l.append(ov(r, int(r.integers(0, 4))))
        if r.random() < .15: l.append(pick(r, [on, oo])(r, int(r.integers(1, 4))))
        if r.random() < .12: l.append(badopt(r))
        # (after a list of the readers what is read is not a size)
        l = [o for o in l if o['o'] != 'R' and all(re.fullmatch(r'[-+.\w]+', t) for t in o['text']) and not any(t in ('--help', '--version') for t in o['text'])]
        return shuffle(r, l)
    out = ck.model('MCTools', cfg=os.path.join(SPEC, 'mc', 'MCTools_visual%s.cfg' % ('_more' if THOROUGH else '')))
    files = modelfiles(s, out)
    H = sorted(set(re.findall(r'^"CALL (.*)"$', out, re.M)))
    if len(H) < 3000: raise CheckError('MCTools: %d calls' % len(H))
    for k in r.permutation(len(H))[:q(150, 1500)]:
        own_, missing, ro, sw, args, f, known, ok = H[k].split('|')
        cmd, opts = [], []
        for t in own_.split(';')[:-1]:
            cmd += t.split()
            o, x = t[1], t[3:]
            opts.append({'o': 'bad' if o == 'z' else o, **({'n': int(x)} if o == 'l' else {'b': B(x)} if x else {})})
        ropts = [token(r, ro)] if ro else []
        if any(x.strip() != x or not x for t in ropts for x in t['text']): continue
        if ro: cmd += ['-r', ' '.join(ropts[0]['text'])]
        sw = [x.strip('"\\') for x in sw.split()]
        if sw: cmd += ['-s', ' '.join(sw)]
        fid, path = files[int(f)]
        cmd += [path, None][:int(args)]
        s.visual(pick(r, V), cmd, opts=opts, ropts=[{k: v for k, v in x.items() if k != 'text'} for x in ropts], words=[B(x) for x in sw], args=int(args),
                 missing=missing, src='file' if fid else 'missing', file=fid, pb=B(os.path.basename(path)), w=27 if fid and known == 'TRUE' else 0, hh=2,
                 works='--fail' not in sw and ok == 'TRUE', path=path, frames=1, out='x.png' if ok == 'TRUE' else 'no/x.png', old=False)
    def run(what='', **over):
        opts, words = [], []
        for _ in range(int(r.choice([0, 0, 1, 2, 3, 4]))):
            w, o = own(r, pick(r, ['l', 'c', 't'])); words += w; opts.append(o)
        ropts, sw, groups = [], [], []
        if r.random() < .5:
            ropts = forresdet(r)
            t = pick(r, [' ', ' ', '  ']).join(x for o in ropts for x in o['text'])
            groups.append(['-r', t])
        if r.random() < .5:
            sw = [pick(r, ['-b', '-c', '-x', '--gamma=2', 'abs', '5', 'a=b,c']) for _ in range(int(r.integers(1, 4)))]
            groups.append(['-s', ' '.join(sw)])
        if what == 'specfail': sw = sw + ['--fail']; groups.append(['-s', ' '.join(sw)])
        if groups and r.random() < .2:      # the last counts
            groups = [[g[0], 'nothing'] for g in groups] + groups
        for g in groups: words += g
        if what in ('h', 'bad'):
            w = ['-h'] if what == 'h' else pick(r, [['-z'], ['-H'], ['-' + pick(r, 'lctrs')], ['-?'], ['--help']])
            opts.append({'o': what})
            if what == 'bad' and len(w[0]) == 2 and w[0][1] in 'lctrs': words += w; return words, opts, ropts, sw, True
            words += w
        return words, opts, ropts, sw, False
    for k in range(q(220, 1500)):
        c = r.random()
        what = '' if c < .75 else pick(r, ['h', 'bad', 'bad', 'args', 'args', 'missing', 'missing', 'specfail', 'nodir', 'unknown', 'nofile'])
        if r.random() < .5:
            L = (int(r.integers(30, 75)), int(r.integers(2, 60)))
            w, h = L if r.random() < .5 else L[::-1]
            cc = gen.spectrum(r, w, h, 'odd')
            for x in (0, 1):
                n = cc.shape[1 - x]
                if n > 28 and r.random() < .9: cc = gen.make_odd_about(cc, int(r.integers(12, n - 12)), 12, 1 - x, r, float(r.choice([1, 1, .9])))
            i = s.image(gen.unspectrum(cc), cc)
            n = 1
            name = pick(r, ['a.pfm', 'a b.pfm', "it's.PFM", 'a"b.pfm', 'x*.pfm'])
            fid, path = s.file(gen.pfm_frame(s.pix[i - 1]), name, fi=[i])
        else:
            n = int(r.choice([1, 1, 2, 3]))
            w, h = sizes(r, 24)
            tail = 'trunc' if r.random() < .06 else ''
            fid, path, e, rd = detfile(s, r, n, w=w, h=h, tail=tail, bad=(0,) if r.random() < .05 else ())
            name = os.path.basename(path)
        src = 'file'
        words, opts, ropts, sw, done = run(what)
        missing = pick(r, ['resdet', 'spec', 'magick', 'identify']) if what == 'missing' else ''
        out = 'no/such.png' if what == 'nodir' else pick(r, ['out.png', 'o u t.png', "o'.png"])
        args = 2
        if what == 'nofile': src, path, fid = 'missing', os.path.join(s.dir, 'nosuch.pfm'), 0
        if not done:
            if what == 'args': args = int(r.integers(2))
            words += ([] if r.random() < .9 else ['--']) + [path, None][:args]
        else: args = 0
        s.visual(pick(r, V), words, opts=opts, ropts=[{k: v for k, v in x.items() if k != 'text'} for x in ropts], words=[B(x) for x in sw], args=args,
                 missing=missing, src=src, file=fid, pb=B(os.path.basename(path)), w=0 if what in ('unknown', 'nofile') else w, hh=h,
                 works=what not in ('specfail', 'nodir'), path=path, frames=n, out=out, old=what == '' and r.random() < .2)
    s.runjobs()
    ck.validate(s)
