"""P24: derivatives and differences use the right neighbours and spacing."""
import itertools
import numpy as np
from . import ref

BOUND = {
 'quick': 'deriv (4 forms) and diff (every order) of every axis length 2 to 5 and every order of its coordinates (all permutations of unevenly spaced values), as only, first, middle and last of up to 3 axes, 6 data types, '
          'missing values, spacing given by the axis, a one-dimensional and a many-dimensional variable, 3 storage protocols, every single position, pair of positions and slice read alone; linear and quadratic data for exactness; every strided selection (steps 1 to 5 and -1 to -3) of 11 values',
 'thorough': 'as quick for lengths up to 6, every subset of positions'}

COORD = [3., 4., 6.5, 10., 10.25, 18.]
DT = ['float64', 'float32', 'int32', 'int8', 'uint8', 'complex128']

def layouts():
    """(shape template with the axis at None, position)"""
    return [((None,), 0), ((None, 2), 0), ((2, None), 1), ((2, None, 3), 1), ((3, 2, None), 2), ((1, None), 1)]

def cases(tier):
    N = 6 if tier == 'thorough' else 5
    out = [['long', 14 if tier == 'thorough' else 11, op] for op in ('centre', 'left', 'right', '2', 0, 1, 2, 3, 5)]
    for n in range(2, N+1):
        perms = list(itertools.permutations(range(n))) if n <= 4 else [p for i, p in enumerate(itertools.permutations(range(n))) if i % (7 if n == 5 else 31) == 0] + [tuple(range(n))[::-1]]
        for p in perms: out.append(['perm', n, list(p), tier])
        for lay in range(len(layouts())):
            for s in ref.STORES:
                for dt in DT: out.append(['lay', n, lay, s, dt, tier])
    return out

def axes(lay, a):
    import pygeode as pyg
    shape, pos = layouts()[lay]
    oth = iter([pyg.Pres([1000., 300., 100.]), pyg.Lon([0., 90., 180.])])
    return tuple(a if k is None else next(oth).slice[:k] for k in shape), pos

def o_deriv(v, x, df):
    """along the last axis; x of the same shape"""
    v = v.astype(complex if v.dtype.kind == 'c' else float); n = v.shape[-1]
    out = np.empty(v.shape, v.dtype)
    for i in range(n):
        if df == '2':
            l, c, r = (i-1, i, i+1) if 0 < i < n-1 else (0, 1, 2) if i == 0 else (n-3, n-2, n-1)
            a, b, d = x[..., l], x[..., c], x[..., r]
            # second derivative of the parabola through the three points (Newton's divided differences)
            out[..., i] = 2*((v[..., r] - v[..., c])/(d - b) - (v[..., c] - v[..., l])/(b - a))/(d - a)
        else:
            if df == 'centre': l, r = max(i-1, 0), min(i+1, n-1)
            elif df == 'left': l, r = (i-1, i) if i > 0 else (0, 1)
            else: l, r = (i, i+1) if i < n-1 else (n-2, n-1)
            out[..., i] = (v[..., r] - v[..., l])/(x[..., r] - x[..., l])
    return out

def reads(full, pos, n, one, tier):
    one(slice(None))
    for i in range(n): one([i])
    if tier == 'thorough':
        for r in range(2, n+1):
            for c in itertools.combinations(range(n), r): one(list(c))
    for c in itertools.permutations(range(n), 2): one(list(c))
    for s in (slice(1, None), slice(None, -1), slice(None, None, -1), slice(None, None, 2), slice(-1, 0, -2)): one(s)

def run(case, rec):
    import warnings; warnings.simplefilter('ignore')
    with np.errstate(all='ignore'):
        globals()[case[0]](case, rec)

def perm(case, rec):
    import pygeode as pyg
    _, n, p, tier = case
    x = np.array([COORD[i] for i in p])
    for cls in ('lat', 'named'):
        a = pyg.Lat(x) if cls == 'lat' else pyg.NamedAxis(x, 'q')
        datas = dict(linear=2.5 - .5*x, quad=.25*x**2 - x + 3, generic=ref.data((n,)) % 89, gap=np.where(np.arange(n) == n//2, np.nan, ref.data((n,)) % 89))
        for k, d in datas.items():
            v = ref.var((a,), d, 'mem')
            for df in ('centre', 'left', 'right', '2'):
                if df == '2' and n < 3: continue
                g, err = ref.attempt(lambda: v.deriv(a.name, df=df).get()); rec.step()
                want = o_deriv(d, x, df); key = 'deriv-%s' % df
                rec.state(k, df, want)
                rec.check(err is None and ref.same(g, want, 1e-9, 1e-9), lambda: 'deriv %s at %s of %s: %r %s' % (df, x, d, err, ref.diffmsg('', g, want)), key)
                if err is None and k == 'linear': rec.check(np.allclose(g, 0 if df == '2' else -.5), lambda: 'deriv %s at %s of a linear function: %s' % (df, x, g), key)
                if err is None and k == 'quad' and df == '2': rec.check(np.allclose(g, .5), lambda: 'deriv 2 at %s of a quadratic function: %s' % (x, g), key)

def lay(case, rec):
    import pygeode as pyg
    _, n, li, store, dt, tier = case
    x = np.array(COORD[:n])[::-1 if n % 2 else 1]
    a = pyg.Lat(x)
    ax, pos = axes(li, a)
    shape = tuple(len(b) for b in ax); nd = len(shape)
    d = (ref.data(shape) % 89)
    if dt == 'uint8': d = d*2
    d = (d*(1+2j) if dt == 'complex128' else d).astype(dt)
    def full(x): return np.broadcast_to(np.moveaxis(x, pos, -1) if x.ndim == nd else x, np.moveaxis(d, pos, -1).shape)
    dxs = {'axis': (None, full(x)), 'one': (ref.var((a,), x**2 + 1., store), full(x**2 + 1.))}
    if nd > 1:
        f = (np.arange(np.prod(shape)).reshape(shape) % 5 + 1.) * np.moveaxis(np.broadcast_to(x, shape[:pos] + shape[pos+1:] + (n,)), -1, pos)
        f = np.cumsum(np.abs(f), pos)
        dxs['field'] = (ref.var(ax, f, store), full(f))
        o = 1 if pos == 0 else 0
        ff = np.outer(np.arange(shape[o]) + 2., x)
        order = sorted((o, pos))
        dxs['other'] = (ref.var((ax[o], a), ff, store), np.moveaxis(np.broadcast_to(np.expand_dims(ff if o < pos else ff.T, tuple(i for i in range(nd) if i not in order)), shape), pos, -1))
    v = ref.var(ax, d, store, name='t', atts={'k': 1})
    outdt = dt if np.dtype(dt).kind in 'fc' else 'float64'
    tol = 3e-6 if dt == 'float32' else 1e-9
    for dn, (dx, X) in dxs.items():
        for df in ('centre', 'left', 'right', '2'):
            key = 'deriv-%s-%s' % (df, dn)
            if df == '2' and n < 3:
                g, err = ref.attempt(lambda: v.deriv('lat', dx=dx, df=df).get()); rec.step()
                rec.check(err is not None, lambda: 'second derivative from two values: %s' % (g,), key); continue
            want = np.moveaxis(o_deriv(np.moveaxis(d, pos, -1), X, df), -1, pos)
            r, err = ref.attempt(lambda: v.deriv('lat', dx=dx, df=df))
            if not rec.check(err is None, lambda: 'deriv %s of %s raises %r' % (df, shape, err), key): continue
            rec.check(r.axes == v.axes and r.dtype == np.dtype(outdt), lambda: 'deriv %s of %s: axes %s, type %s' % (df, dt, r.axes, r.dtype), key)
            def one(s):
                g, err = ref.attempt(lambda: r.slice[tuple(s if i == pos else slice(None) for i in range(nd))].get()); rec.step()
                w = np.take(want, np.arange(n)[s], axis=pos)
                rec.check(err is None and ref.same(g, w, tol, tol*np.abs(want).max()), lambda: 'deriv %s (dx: %s) of %s %s axis %d [%s] (%s): %r %s' % (df, dn, dt, shape, pos, s, store, err, ref.diffmsg('', g, w)), key)
            reads(want, pos, n, one, tier)
            rec.state('deriv', df, dn, want)
    for k in range(0, n):
        key = 'diff'
        want = np.diff(d, n=k, axis=pos)
        r, err = ref.attempt(lambda: v.diff('lat', k))
        if not rec.check(err is None, lambda: 'diff order %d of %s raises %r' % (k, shape, err), key): continue
        rec.check(r.axes[pos] == a.slice[:n-k] and r.shape == want.shape and r.dtype == want.dtype, lambda: 'diff order %d of %s %s: axes %s, type %s' % (k, dt, shape, r.axes, r.dtype), key)
        def one(s):
            g, err = ref.attempt(lambda: r.slice[tuple(s if i == pos else slice(None) for i in range(nd))].get()); rec.step()
            w = np.take(want, np.arange(n-k)[s], axis=pos)
            rec.check(err is None and ref.same(g, w, tol, 1e-3 if dt == 'float32' else 1e-9, dtype=True), lambda: 'diff order %d of %s %s axis %d [%s] (%s): %r %s' % (k, dt, shape, pos, s, store, err, ref.diffmsg('', g, w)), key)
        reads(want, pos, n-k, one, tier)
        rec.state('diff', k, want)
    r, err = ref.attempt(lambda: v.diff('lat', n)); rec.step()
    rec.check(err is not None or r.shape[pos] == 0, lambda: 'diff of order %d of %d values: %s' % (n, n, r), 'diff')

def all_slices(n, steps=(1, 2, 3, 4, 5, -1, -2, -3)):
    """every distinct selection of an axis of length n by a slice (the positions)"""
    out = set()
    for i in range(n):
        for j in range(-1, n+1):
            for s in steps:
                p = tuple(range(i, j, s))
                if p: out.add(p)
    return sorted(out)

def long_reads(rec, f, want, n, what, key, tol=1e-9):
    """every strided selection of a long one-dimensional result; f: lazy variable"""
    for p in all_slices(n):
        g, err = ref.attempt(lambda: f.slice[(list(p),)].get()); rec.step()
        w = want[list(p)]
        rec.check(err is None and ref.same(g, w, tol, tol*100), lambda: '%s at %s: %r %s' % (what, p, err, ref.diffmsg('', g, w)), key)
    rec.state(what, want)

def long(case, rec):
    import pygeode as pyg
    _, n, op = case
    x = np.cumsum(np.arange(n) % 4 + 1.); d = ref.data((n,)) % 89 + 0.
    v = ref.var((pyg.Lat(x),), d, 'getview', name='t')
    if isinstance(op, int): long_reads(rec, v.diff('lat', op), np.diff(d, op), n - op, 'diff of order %d of %d values' % (op, n), 'diff')
    else: long_reads(rec, v.deriv('lat', df=op), o_deriv(d, x, op), n, 'deriv %s of %d values' % (op, n), 'deriv-%s' % op)
