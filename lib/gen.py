"""Generation of images, files and scripts.  Everything random comes from a seeded generator."""
import struct, zlib
import numpy as np
import scipy.fft

def rng(seed, *key):
    return np.random.default_rng([seed & 0xffffffff] + [zlib.crc32(str(k).encode()) for k in key])

# ------------------------------------------------------------------ images
# An image is made from its spectrum: a matrix of integers, which the specification then knows exactly.
# The transform's rounding is far below one half, and only integers apart by at least one are ever compared;
# equal ones may be decided either way.
def unspectrum(c, scale=1.0):
    x = scipy.fft.idctn(np.asarray(c, dtype=float) * scale, type=2)
    x32 = x.astype(np.float32)
    err = np.abs(scipy.fft.dctn(x32.astype(float), type=2) / scale - c).max()
    assert err < 1e-2, err
    return x32

def odd(r, shape, mx=15):
    """Random odd integers: no two are in the ratio 2, none is zero."""
    return (r.integers(0, (mx + 1) // 2, shape) * 2 + 1) * r.choice([-1, 1], shape)

def spectrum(r, w, h, kind='odd'):
    if kind == 'odd':
        return odd(r, (h, w))
    if kind == 'any':
        return r.integers(-9, 10, (h, w))
    if kind == 'wide':
        return odd(r, (h, w), 99)
    if kind == 'steps':       # magnitudes growing to the right and down, so that zero crossings are frequent
        c = np.sort(np.abs(odd(r, (h, w), 199)), axis=1)
        return c * r.choice([-1, 1], (h, w))
    if kind == 'ramp':        # runs through zero around some columns and rows
        x = np.arange(w)[None, :]; y = np.arange(h)[:, None]
        sx, sy = r.integers(0, w), r.integers(0, h)
        return (2 * ((x - sx) * r.choice([-1, 1], (h, 1)) + 3 * (y - sy) * r.choice([-1, 1], (1, w))) + 1)
    raise ValueError(kind)

def make_odd_about(c, s, R, axis, r=None, share=1.0):
    """Makes the spectrum odd about column (axis 1) or row (axis 0) s over range R, in a share of the lines."""
    c = c.copy()
    v = c if axis == 1 else c.T
    n, L = v.shape
    for j in range(n):
        if r is None or share >= 1 or r.random() < share:
            for i in range(1, R + 1):
                if s - i >= 0 and s + i < L:
                    v[j, s + i] = -v[j, s - i]
    return c

def dip(c, s, axis):
    """Small magnitudes at s and large ones around it, as the orig method looks for."""
    c = c.copy()
    v = c if axis == 1 else c.T
    v[:, s] = np.sign(v[:, s])
    return c

def project(pix, scale_to=1000000):
    """Spectrum of given pixels as integers, with a tolerance."""
    C = scipy.fft.dctn(np.asarray(pix, dtype=np.float32).astype(float), type=2)
    m = np.abs(C).max()
    k = scale_to / m if m > 0 else 1.0
    # single precision transforms are good to a few 1e-7 of the largest coefficient
    return np.rint(C * k).astype(int), 6

# ------------------------------------------------------------------ files
def pgm(pix, maxval=255, header=None):
    h, w = pix.shape
    return (header if header is not None else b'P5\n%d %d\n%d\n' % (w, h, maxval)) + pix.astype(np.uint8).tobytes()

def pfm_frame(pix, le=True, header=None):
    """pix: h x w (gray) or h x w x 3, float32."""
    h, w = pix.shape[:2]
    color = pix.ndim == 3
    hdr = header if header is not None else b'P%s\n%d %d\n%s\n' % (b'F' if color else b'f', w, h, b'-1.0' if le else b'1.0')
    return hdr + pix[::-1].astype('<f4' if le else '>f4').tobytes()

def y4m_header(w, h, csp=None, extra=b''):
    return b'YUV4MPEG2 W%d H%d%s%s\n' % (w, h, b' C' + csp if csp else b'', extra)

def y4m_chroma(csp, w, h):
    c = (csp or b'420jpeg')
    if c.startswith(b'mono'): return 0
    if c.startswith(b'420'): return ((w + 1) // 2) * ((h + 1) // 2) * 2
    if c.startswith(b'411'): return ((w + 3) // 4) * h * 2
    if c.startswith(b'422'): return ((w + 1) // 2) * h * 2
    if c == b'444alpha': return w * h * 3
    return w * h * 2

def y4m_depth(csp):
    c = csp or b'420'
    d = c[4:] if c.startswith(b'mono') else c[4:] if c[3:4] == b'p' else b''
    return int(d) if d.isdigit() else 8

def y4m_frame(r, w, h, csp=None, params=b'', luma=None):
    d = y4m_depth(csp)
    n = y4m_chroma(csp, w, h)
    mx = (1 << d) - 1
    if luma is None:
        luma = r.integers(0, mx + 1, (h, w))
    dt = '<u2' if d > 8 else 'u1'
    ch = r.integers(0, mx + 1, n)
    return b'FRAME' + params + b'\n' + luma.astype(dt).tobytes() + ch.astype(dt).tobytes()

def f32bits(x):
    return struct.unpack('<I', struct.pack('<f', x))[0]

def thr_args(p, q):
    """Arguments of pthr for the threshold p/q; exact if q is a power of two."""
    t = np.float32(p / q)
    return '%08x %d %d %d' % (f32bits(t), round(float(t) * 1e9), p if q & (q - 1) == 0 else -1, q)
