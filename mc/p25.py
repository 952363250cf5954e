"""P25: smoothing and Fourier filtering are the documented linear operators."""
import itertools
import numpy as np
from . import ref
from .p24 import DT, layouts, reads, long_reads

BOUND = {
 'quick': 'smooth with every kernel of length 1 to the axis length (unit impulses at every place, an uneven, a negative-weighted one; given as list, tuple and array; every Hanning window), both convolution methods, and fft_smooth with '
          'every number of harmonics from 0 to beyond the highest, axis lengths 1 to 7 as only, first, middle and last of up to 3 axes, every unit impulse of the data (so the whole operator matrix) and generic data of 6 types, 3 storage protocols, '
          'every single position, pair of positions and slice read alone; every strided selection (steps 1 to 5 and -1 to -3) of 11 values; refused kernels',
 'thorough': 'as quick for axis lengths up to 9, every subset of positions'}

def kernels(n):
    for K in range(1, n+1):
        for m in range(K):
            k = [0.]*K; k[m] = 2.
            yield 'imp%d-%d' % (K, m), k
        yield 'uneven%d' % K, [1. + (3*i*i + i) % 7 for i in range(K)]
        yield 'signed%d' % K, [(-1)**i * (i + .5) if i else 20. for i in range(K)]

def cases(tier):
    N = 9 if tier == 'thorough' else 7
    out = []
    for n in range(1, N+1):
        for op in ('smooth', 'hann', 'fft'): out.append(['matrix', op, n, tier])
        for lay in range(len(layouts())):
            for s in ref.STORES:
                for dt in DT:
                    if n in (2, 3, 4, 6): out.append(['lay', n, lay, s, dt, tier])
    return out + [['refuse']] + [['long', 14 if tier == 'thorough' else 11, k] for k in range(9)]

def o_smooth(x, k):
    """along the last axis: convolution of the data extended by reflection (edge value repeated)"""
    k = np.array(k, float); k = k/k.sum(); K = len(k); n = x.shape[-1]
    x = x.astype(complex if x.dtype.kind == 'c' else float)
    out = np.zeros(x.shape, x.dtype)
    for i in range(n):
        for m in range(K):
            j = i + (K-1)//2 - m
            j = -1 - j if j < 0 else 2*n - 1 - j if j >= n else j
            out[..., i] += k[m]*x[..., j]
    return out

def o_fft(x, h):
    """along the last axis: projection on the harmonics of order less than h"""
    n = x.shape[-1]; t = np.arange(n)
    x = x.astype(complex if x.dtype.kind == 'c' else float)
    out = np.zeros(x.shape, complex)
    for f in range(n):
        if min(f, n-f) >= h: continue
        e = np.exp(2j*np.pi*f*t/n)
        out += ((x*e.conj()).sum(-1)/n)[..., None]*e
    return out if x.dtype.kind == 'c' else out.real

def variants(n, op):
    """(name, function of the variable and the axis, reference)"""
    if op == 'smooth':
        for i, (kn, k) in enumerate(kernels(n)):
            kk = [list, tuple, np.array][i % 3](k)
            for fft in (True, False): yield '%s-%s' % (kn, fft), lambda v, a, kk=kk, fft=fft: v.smooth(a, kk, fft=fft), lambda x, k=k: o_smooth(x, k)
    elif op == 'hann':
        for K in range(1, n+1):
            k = [.5 - .5*np.cos(2*np.pi*i/(K-1)) for i in range(K)] if K > 2 else [1.]
            for fft in (True, False): yield 'hann%d-%s' % (K, fft), lambda v, a, K=K, fft=fft: v.smooth(a, K, fft=fft), lambda x, k=k: o_smooth(x, k)
    else:
        for h in range(n//2 + 3): yield 'fft%d' % h, lambda v, a, h=h: v.fft_smooth(a, h), lambda x, h=h: o_fft(x, h)

def axes(lay, n):
    import pygeode as pyg
    shape, pos = layouts()[lay]
    oth = iter([pyg.Pres([1000., 300., 100.]), pyg.Lon([0., 90., 180.])])
    return tuple(pyg.Lat(np.arange(n)*5.) if k is None else next(oth).slice[:k] for k in shape), pos

def run(case, rec):
    import warnings; warnings.simplefilter('ignore')
    globals()[case[0]](case, rec)

def refuse(case, rec):
    import pygeode as pyg
    for n in range(1, 5):
        a = pyg.Lat(np.arange(n)*1.)
        v = ref.var((a,), ref.data((n,)), 'mem')
        for f in (lambda: v.smooth('lat', [1., 2., 1.] + [1.]*(n-2)), lambda: v.smooth('lat', max(n+1, 3))) if n >= 2 else (lambda: v.smooth('lat', 3),):
            g, err = ref.attempt(lambda: f().get()); rec.step(); rec.state(n)
            rec.check(isinstance(err, (ValueError, AssertionError)), lambda: 'kernel longer than the axis (%d): %r %s' % (n, err, g), 'refuse')

def matrix(case, rec):
    import pygeode as pyg
    _, op, n, tier = case
    a = pyg.Lat(np.arange(n)*5.)
    for name, f, o in variants(n, op):
        for d in list(np.eye(n)) + [np.ones(n), ref.data((n,)) % 97, -3. + np.arange(n)]:
            for dt in ('float64', 'complex128'):
                x = d.astype(dt)*(1 if dt == 'float64' else 1-2j)
                g, err = ref.attempt(lambda: f(ref.var((a,), x, 'mem'), 'lat').get()); rec.step()
                want = o(x); rec.state(name, want)
                rec.check(err is None and ref.same(g, want, 1e-9, 1e-9), lambda: '%s of %s: %r %s' % (name, x, err, ref.diffmsg('', g, want)), op)
                if err is None and op != 'fft': rec.check(d.min() != d.max() or np.allclose(g, x), lambda: '%s of the constant %s: %s' % (name, x, g), op)

def lay(case, rec):
    import pygeode as pyg
    _, n, li, store, dt, tier = case
    ax, pos = axes(li, n)
    shape = tuple(len(b) for b in ax); nd = len(shape)
    d = (ref.data(shape) % 89)
    if dt == 'uint8': d = d*2
    d = (d*(1+2j) if dt == 'complex128' else d).astype(dt)
    v = ref.var(ax, d, store, name='t', atts={'k': 1})
    outdt = dt if np.dtype(dt).kind in 'fc' else 'float64'
    tol = 1e-5 if dt == 'float32' else 1e-9
    for op in ('smooth', 'hann', 'fft'):
        for name, f, o in variants(n, op):
            if name.startswith('imp') and not name.startswith('imp%d-0' % n): continue
            same = name.startswith(('imp1-', 'uneven1-', 'signed1-', 'hann1-', 'hann2-'))
            want = np.moveaxis(o(np.moveaxis(d, pos, -1)), -1, pos)
            r, err = ref.attempt(lambda: f(v, 'lat'))
            if not rec.check(err is None, lambda: '%s of %s raises %r' % (name, shape, err), op): continue
            rec.check(r.axes == v.axes and r.name == 't' and (same or r.dtype == np.dtype(outdt)), lambda: '%s of %s: axes %s, type %s, name %s' % (name, dt, r.axes, r.dtype, r.name), op)
            def one(s, at=pos):
                g, err = ref.attempt(lambda: r.slice[tuple(s if i == at else slice(None) for i in range(nd))].get()); rec.step()
                w = np.take(want, np.arange(shape[at])[s], axis=at)
                rec.check(err is None and ref.same(g, w, tol, tol*max(np.abs(d.astype(complex)).max(), 1)), lambda: '%s of %s %s axis %d, axis %d [%s] (%s): %r %s' % (name, dt, shape, pos, at, s, store, err, ref.diffmsg('', g, w)), op)
            if tier == 'thorough' or dt == 'float64': reads(want, pos, n, one, tier)
            else:
                for s in (slice(None), [n-1], [0], slice(None, None, -1)): one(s)
            for i in range(nd):
                if i != pos:
                    for s in ([shape[i]-1], slice(None, None, -1)): one(s, i)
            rec.state(name, want)

def long(case, rec):
    import pygeode as pyg
    _, n, k = case
    d = ref.data((n,)) % 89 + 0.
    v = ref.var((pyg.Lat(np.arange(n)*5.),), d, 'getview', name='t')
    if k < 3: r, want, what = v.fft_smooth('lat', k+1), o_fft(d, k+1), 'fft_smooth(%d)' % (k+1)
    else:
        kern = [[1, 2.], [1, 2, 3.], [5, 1, 1, 2.], list(range(1, n+1)), list(range(1, n))][(k-3) % 5]
        r, want, what = v.smooth('lat', kern, fft=bool(k % 2)), o_smooth(d, kern), 'smooth %s' % kern
    long_reads(rec, r, want, n, '%s of %d values' % (what, n), 'long')
