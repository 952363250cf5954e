"""P03: the memory limit never changes a result."""
import os, tempfile
import numpy as np
from . import ref, ops

BOUND = {
 'quick': 'every entry of the catalogue of 250 derived variables x 2 storage protocols x every memory limit from 1 element to one more than the largest input or output (at most 110), for the whole '
          'result (value, shape, type, and axes), and 5 selections of it for the limits 1, 2, 3, 5, 7 and 11; loading in memory, and netCDF-3 files written by both netCDF drivers for every limit',
 'thorough': 'as quick for 3 storage protocols, with 12 selections for every limit'}

def sels(shape, tier):
    nd = len(shape); out = []
    n = shape
    out.append(tuple(slice(1, None) for _ in n)); out.append(tuple(slice(None, None, -1) for _ in n))
    out.append(tuple([k-1, 0, k//2] for k in n)); out.append(tuple([0, 0, k-1] if i == nd-1 else slice(None) for i, k in enumerate(n)))
    out.append(tuple(slice(None, None, 2) for _ in n))
    if tier == 'thorough':
        for i in range(nd):
            out.append(tuple([n[i]-1] if j == i else slice(None) for j in range(nd)))
            out.append(tuple([n[i]-1, 0] if j == i else slice(None) for j in range(nd)))
        out.append(tuple(slice(0, 1) for _ in n)); out.append(tuple(slice(-1, None) for _ in n))
    return out

def cases(tier):
    out = [[l, s, tier] for l, _ in ops.catalogue() for s in (ref.STORES if tier == 'thorough' else ('mem', 'getvalues'))]
    return out + [['file', s, tier, lo, fmt] for fmt in ('netcdf4', 'netcdf') for s in ('mem', 'getview', 'getvalues') for lo in range(1, 140, 20)]

def run(case, rec):
    import warnings; warnings.simplefilter('ignore')
    with np.errstate(all='ignore'):
        (files if case[0] == 'file' else calc)(case, rec)

def outputs(f, store):
    import pygeode as pyg
    I = ops.Inputs(store)
    r = f(I)
    return [x for x in (r if isinstance(r, tuple) else (r,)) if isinstance(x, pyg.Var)], [v.size for v, _ in I.vars]

def axkey(a): return (type(a).__name__, a.name, a.values.tolist(), sorted((k, np.asarray(v).tolist()) for k, v in a.auxarrays.items()))

def calc(case, rec):
    label, store, tier = case
    f = dict(ops.catalogue())[label]
    R, sizes = outputs(f, store)
    full = [np.array(r.get()) for r in R]
    top = max([1] + sizes + [a.size for a in full]) + 1
    S = [sels(a.shape, tier) if a.size and a.ndim else [] for a in full]
    for n in range(1, top+1):
        with ref.chunks(n):
            (Q, err) = ref.attempt(lambda: outputs(f, store)[0])
            if not rec.check(err is None, lambda: '%s (%s), limit %d: raises %r' % (label, store, n, err), label): continue
            for r, a in zip(Q, full):
                fin = a[np.isfinite(a)] if a.dtype.kind in 'fc' else a
                tol = 1e-10*(np.abs(fin).max() if fin.size and a.dtype.kind in 'fc' else 0)
                def cmp(what, g, want):
                    g, err = ref.attempt(g); rec.step()
                    rec.check(err is None and ref.same(g, want, 1e-9, tol, dtype=True), lambda: '%s (%s), limit %d, %s: %r %s' % (label, store, n, what, err, ref.diffmsg('', g, want)), label)
                    return g
                g = cmp('all', lambda: r.get(), a)
                rec.state(label, r.name, g)
                cmp('load', lambda: r.load().values, a)
                if n in (1, 2, 3, 5, 7, 11) or tier == 'thorough':
                    for s in sels(a.shape, tier) if a.size and a.ndim else ():
                        w = a
                        for i, x in enumerate(s): w = np.take(w, np.arange(a.shape[i])[x], axis=i)
                        cmp('selection %s' % (s,), lambda: r.slice[s].get(), w)
            for r, q in zip(R, Q):
                rec.check(len(r.axes) == len(q.axes) and all(axkey(x) == axkey(y) for x, y in zip(r.axes, q.axes)), lambda: '%s (%s), limit %d: axes %s, not %s' % (label, store, n, q.axes, r.axes), label)

def files(case, rec):
    """the bytes of the variables of a saved file"""
    import pygeode as pyg
    _, store, tier, lo, fmt = case
    d = tempfile.mkdtemp(prefix='p03-')
    try:
        from scipy.io import netcdf_file
        A = ops._ax()
        def ds():
            I = ops.Inputs(store)
            v = I.v((A.tc, A.y, A.x), name='v', nan=True); w = I.v((A.x, A.p), dtype='float32', name='w'); i = I.v((A.q,), dtype='int32', name='i')
            return pyg.Dataset([v, w, i, (v*2 - v.mean('lon')).rename('anom'), (w.transpose('pres')*2.).rename('t')])
        def contents(fn):
            pyg.save(fn, ds(), version=3, format=fmt)
            with netcdf_file(fn, mmap=False) as f: return {k: (x.dimensions, np.array(x.data), sorted((a, str(b)) for a, b in x._attributes.items())) for k, x in f.variables.items()}
        fn = os.path.join(d, 'a.nc')
        want = contents(fn)
        os.remove(fn)
        rec.check(len(want) == 5 + 6, lambda: 'saved variables %s' % sorted(want), 'file')
        for n in range(lo, lo+20):
            with ref.chunks(n):
                g, err = ref.attempt(lambda: contents(fn)); rec.step(10)
                if not rec.check(err is None and sorted(g) == sorted(want), lambda: 'saving with limit %d: %r %s' % (n, err, g), 'file'): continue
                for k in want:
                    rec.state('file', k, g[k][1])
                    rec.check(g[k][0] == want[k][0] and g[k][2] == want[k][2] and ref.same(g[k][1], want[k][1], 1e-9, 1e-12, dtype=True), lambda: 'saved %s with limit %d: %s' % (k, n, ref.diffmsg('', g[k][1], want[k][1])), 'file')
                os.remove(fn)
    finally:
        import shutil; shutil.rmtree(d)
