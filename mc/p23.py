"""P23: integrals and cumulative sums are exact for the chosen rule, direction and range."""
import itertools
import numpy as np
from . import ref
from .p24 import COORD, DT, axes, layouts, reads, long_reads

BOUND = {
 'quick': 'integrate (trapz, rectl, rectr) and cumsum, forwards and backwards, of every axis length 2 to 5 (cumsum from 1) and every order of its coordinates, as only, first, middle and last of up to 3 axes, 6 data types, '
          'missing values, spacing given by the axis, a one-dimensional and a many-dimensional variable, start value absent, a number, a variable on no, one and all the other axes (every order), 3 storage protocols, every single position, '
          'pair of positions and slice read alone (for all data types without start value, otherwise for one type, plus both ends and the reversed axis); constants and linear data for exactness; forward plus backward integral = whole; every strided selection (steps 1 to 5 and -1 to -3) of 11 values; refused arguments',
 'thorough': 'as quick for lengths up to 6, every subset of positions'}

RULES = ('trapz', 'rectl', 'rectr', 'cumsum')

def cases(tier):
    N = 6 if tier == 'thorough' else 5
    out = [['refuse']] + [['long', 14 if tier == 'thorough' else 11, r, o] for r in RULES for o in (1, -1)]
    for n in range(1, N+1):
        perms = list(itertools.permutations(range(n))) if n <= 4 else [p for i, p in enumerate(itertools.permutations(range(n))) if i % (7 if n == 5 else 31) == 0] + [tuple(range(n))[::-1]]
        for p in perms: out.append(['perm', n, list(p), tier])
        for lay in range(len(layouts())):
            for s in ref.STORES:
                for dt in DT: out.append(['lay', n, lay, s, dt, tier])
    return out

def o_int(v, x, rule, order, v0):
    """along the last axis; x of the same shape; v0 without the last axis"""
    v = v.astype(complex if v.dtype.kind == 'c' else float); n = v.shape[-1]
    out = np.empty(v.shape, v.dtype)
    for i in range(n):
        t = np.zeros(v.shape[:-1], v.dtype) + v0
        if rule == 'cumsum':
            for j in (range(i+1) if order == 1 else range(i, n)): t = t + v[..., j]
        else:
            for j in (range(i) if order == 1 else range(i, n-1)):
                d = x[..., j+1] - x[..., j]
                t = t + d*(v[..., j] if rule == 'rectl' else v[..., j+1] if rule == 'rectr' else (v[..., j] + v[..., j+1])/2)
        out[..., i] = t
    return out

def call(v, ax, rule, order, dx=None, v0=None):
    if rule == 'cumsum': return v.cumsum(ax, v0=v0, order=order)
    return v.integrate(ax, dx=dx, v0=v0, order=order, type=rule)

def run(case, rec):
    import warnings; warnings.simplefilter('ignore')
    with np.errstate(all='ignore'): globals()[case[0]](case, rec)

def refuse(case, rec):
    import pygeode as pyg
    a, b = pyg.Lat([0., 1., 5.]), pyg.Lon([0., 90.])
    v = ref.var((a, b), ref.data((3, 2)), 'mem', name='t')
    other = ref.var((pyg.Pres([1., 2.]),), np.ones(2), 'mem')
    one = ref.var((a.slice[:1],), np.ones(1), 'mem')
    for what, f in dict(own=lambda: v.integrate('lat', v0=ref.var((a,), np.ones(3), 'mem')), foreign=lambda: v.integrate('lat', v0=other), short=lambda: one.integrate('lat'),
                        rule=lambda: v.integrate('lat', type='simpson'), dx=lambda: v.integrate('lat', dx=ref.var((b,), np.ones(2), 'mem').rename('q') if False else ref.var((b, pyg.Pres([1.])), np.ones((2, 1)), 'mem'))).items():
        g, err = ref.attempt(lambda: f().get()); rec.step(); rec.state(what)
        rec.check(isinstance(err, (ValueError, AssertionError)), lambda: 'invalid %s: %r %s' % (what, err, g), 'refuse')

def perm(case, rec):
    import pygeode as pyg
    _, n, p, tier = case
    x = np.array([COORD[i] for i in p])
    for cls in ('lat', 'named'):
        a = pyg.Lat(x) if cls == 'lat' else pyg.NamedAxis(x, 'q')
        datas = dict(const=np.full(n, 2.5), linear=3 - .5*x, generic=ref.data((n,)) % 89, gap=np.where(np.arange(n) == n//2, np.nan, ref.data((n,)) % 89))
        for k, d in datas.items():
            v = ref.var((a,), d, 'mem')
            for rule in RULES:
                if n < 2 and rule != 'cumsum': continue
                key = 'integrate-%s' % rule; both = {}
                for order in (1, -1):
                    for v0 in (None, 7, -2.5):
                        g, err = ref.attempt(lambda: call(v, a.name, rule, order, v0=v0).get()); rec.step()
                        want = o_int(d, x, rule, order, v0 or 0); rec.state(k, rule, order, want)
                        rec.check(err is None and ref.same(g, want, 1e-9, 1e-9), lambda: '%s (order %d, v0 %s) over %s of %s: %r %s' % (rule, order, v0, x, d, err, ref.diffmsg('', g, want)), key)
                        if err is None and v0 is None: both[order] = g
                if len(both) < 2: continue
                if k == 'const' and rule != 'cumsum': rec.check(np.allclose(both[1], 2.5*(x - x[0])) and np.allclose(both[-1], 2.5*(x[-1] - x)), lambda: '%s of a constant over %s: %s' % (rule, x, both), key)
                if k == 'linear' and rule == 'trapz': rec.check(np.allclose(both[1], 3*(x-x[0]) - .25*(x**2-x[0]**2)), lambda: 'trapz of a linear function over %s: %s' % (x, both), key)
                if k != 'gap':
                    whole = both[1][-1]
                    rec.check(np.allclose(both[1] + both[-1] - (d if rule == 'cumsum' else 0), whole), lambda: '%s of %s: forward %s and backward %s do not add to the whole' % (rule, d, both[1], both[-1]), key)

def lay(case, rec):
    import pygeode as pyg
    _, n, li, store, dt, tier = case
    x = np.array(COORD[:n])[::-1 if n % 2 else 1]
    a = pyg.Lat(x)
    ax, pos = axes(li, a)
    shape = tuple(len(b) for b in ax); nd = len(shape)
    d = (ref.data(shape) % 89)
    if dt == 'uint8': d = d*2
    d = (d*(1+2j) if dt == 'complex128' else d).astype(dt)
    m = np.moveaxis(d, pos, -1)
    dxs = {'axis': (None, np.broadcast_to(x, m.shape)), 'one': (ref.var((a,), x**2 + 1., store), np.broadcast_to(x**2 + 1., m.shape))}
    if nd > 1:
        f = np.cumsum(np.arange(np.prod(shape)).reshape(shape) % 5 + 1., pos)
        dxs['field'] = (ref.var(ax, f, store), np.moveaxis(f, pos, -1))
    rest = [i for i in range(nd) if i != pos]
    v0s = {'none': (None, 0.), 'number': (3, 3.)}
    for r in range(len(rest) + 1):
        for c in itertools.permutations(rest, r):
            w = ref.data(tuple(shape[i] for i in c)) % 31 + 1.
            full = np.broadcast_to(np.transpose(w, np.argsort(c)).reshape([shape[i] if i in c else 1 for i in rest]) if c else w, m.shape[:-1])
            if c: v0s['var%s' % ''.join(map(str, c))] = (ref.var([ax[i] for i in c], w, store, name='c'), full)
    v = ref.var(ax, d, store, name='t')
    outdt = 'complex128' if dt == 'complex128' else 'float64'
    tol = 3e-6 if dt == 'float32' else 1e-9
    for dn, (dx, X) in dxs.items():
        for v0n, (v0, V0) in v0s.items():
            for rule in RULES:
                if n < 2 and rule != 'cumsum': continue
                if rule == 'cumsum' and dn != 'axis': continue
                if dn != 'axis' and v0n not in ('none', 'var%s' % ''.join(map(str, rest))): continue
                for order in (1, -1):
                    key = 'integrate-%s-%s-%s' % (rule, dn, v0n)
                    want = np.moveaxis(o_int(m, X, rule, order, V0), -1, pos)
                    r, err = ref.attempt(lambda: call(v, 'lat', rule, order, dx, v0))
                    if not rec.check(err is None, lambda: '%s of %s raises %r' % (rule, shape, err), key): continue
                    rec.check(r.axes == v.axes and r.dtype == np.dtype(outdt), lambda: '%s of %s: axes %s, type %s' % (rule, dt, r.axes, r.dtype), key)
                    def one(s):
                        g, err = ref.attempt(lambda: r.slice[tuple(s if i == pos else slice(None) for i in range(nd))].get()); rec.step()
                        w = np.take(want, np.arange(n)[s], axis=pos)
                        rec.check(err is None and ref.same(g, w, tol, tol*np.abs(want).max()), lambda: '%s order %d (dx: %s, v0: %s) of %s %s axis %d [%s] (%s): %r %s' % (rule, order, dn, v0n, dt, shape, pos, s, store, err, ref.diffmsg('', g, w)), key)
                    if tier == 'thorough' or v0n == 'none' or dt == 'float64': reads(want, pos, n, one, tier)
                    else:
                        for s in (slice(None), [n-1], [0], slice(None, None, -1)): one(s)
                    rec.state(rule, order, dn, v0n, want)
                    for i in rest:
                        for s in ([shape[i]-1], slice(None, None, -1)):
                            g, err = ref.attempt(lambda: r.slice[tuple(s if k == i else slice(-1, None) if k == pos else slice(None) for k in range(nd))].get()); rec.step()
                            w = np.take(np.take(want, np.arange(shape[i])[s], axis=i), [n-1], axis=pos)
                            rec.check(err is None and ref.same(g, w, tol, tol*np.abs(want).max()), lambda: '%s order %d (dx: %s, v0: %s) of %s %s axis %d, axis %d [%s] (%s): %r %s' % (rule, order, dn, v0n, dt, shape, pos, i, s, store, err, ref.diffmsg('', g, w)), key)

def long(case, rec):
    import pygeode as pyg
    _, n, rule, order = case
    x = np.cumsum(np.arange(n) % 4 + 1.); d = ref.data((n,)) % 89 + 0.
    v = ref.var((pyg.Lat(x),), d, 'getview', name='t')
    long_reads(rec, call(v, 'lat', rule, order, v0=3), o_int(d, x, rule, order, 3), n, '%s order %d of %d values' % (rule, order, n), 'integrate-%s' % rule)
