"""P08: unweighted reductions equal numpy reductions, for every axis set, naming form, dtype and missing-value pattern."""
import itertools
import numpy as np
from . import ref

BOUND = {
 'quick': '14 reductions x 10 shapes (up to 3-D, lengths 1-4) x every axis subset and order of naming x 3 naming forms x 3 storage protocols x 6 dtypes; '
          'every assignment of {nan,inf,-inf,0,2} to 1-D n<=3 and of {nan,number} to 2x3 and 4 (all patterns), '
          'for every reduction and axis subset; data with a large offset and constant data.',
 'thorough': 'as quick, plus special-value assignments for n=4 and 2x2, nan patterns for 3x3, all orders of naming in 3-D and 4-D 2x2x2x2.'}

OPS = ['min', 'max', 'sum', 'mean', 'variance', 'stdev', 'nanmin', 'nanmax', 'nansum', 'nanmean', 'nanvariance', 'nanstdev', 'argmin', 'argmax']
SPEC = ['lat', 'lon', 'pres', 'foo']
KW = {op: dict(weights=False) for op in ('mean', 'sum', 'variance', 'nanmean', 'nansum')}     # weights are P09's subject
DT = ['float64', 'float32', 'int64', 'int32', 'int16', 'bool']

def refop(op, d, axes):
    """numpy reduction over dimension numbers `axes`"""
    ax = tuple(axes)
    # a missing value is not a number of an integer array: the nan forms then coincide with the plain ones
    with np.errstate(all='ignore'):
        if op in ('min', 'max', 'sum', 'mean'): return getattr(np, op)(d, axis=ax)
        if op == 'variance': return np.var(d.astype('d'), axis=ax, ddof=1)
        if op == 'stdev': return np.sqrt(np.var(d.astype('d'), axis=ax, ddof=1))
        if op in ('argmin', 'argmax'): return getattr(np, op)(d, axis=ax[0])
        if d.dtype.kind not in 'fc': return refop(op[3:], d, axes)
        # explicit loops: independent of numpy's own nan functions
        keep = [i for i in range(d.ndim) if i not in ax]
        e = d.transpose(keep + list(ax)).reshape([d.shape[i] for i in keep] + [-1])
        out = np.empty(e.shape[:-1], 'd')
        for ix in np.ndindex(*e.shape[:-1]):
            x = [float(v) for v in e[ix] if v == v]
            n = len(x)
            if op == 'nansum': r = float(np.sum(x)) if n else 0.
            elif n == 0: r = np.nan
            elif op == 'nanmin': r = min(x)
            elif op == 'nanmax': r = max(x)
            elif op == 'nanmean': r = np.sum(x) / n
            else:
                r = np.nan if n < 2 else np.var(np.array(x), ddof=1)
                if op == 'nanstdev': r = np.sqrt(r)
            out[ix] = r
        return out

def axsets(op, nd):
    if op in ('argmin', 'argmax'): return [(i,) for i in range(nd)]
    return list(ref.subsets(range(nd), 0))

def names(axes, sub, form):
    """ways of naming the reduced axes"""
    if form == 'name': return [axes[i].name for i in sub]
    if form == 'rev': return [axes[i].name for i in reversed(sub)]
    if form == 'int': return list(sub)
    if form == 'class': return [type(axes[i]) if type(axes[i]).__name__ != 'NamedAxis' else axes[i].name for i in sub]
    if form == 'axis': return [axes[i] for i in sub]

def cases(tier):
    out = []
    shapes = [(1,), (2,), (4,), (1, 3), (2, 3), (3, 2), (2, 1), (2, 1, 3), (2, 3, 2), (3, 2, 2)]
    if tier == 'thorough': shapes += [(2, 2, 2, 2), (1, 1, 1), (5, 3)]
    for shp in shapes:
        for dt in DT:
            for store in ref.STORES:
                out.append(['shape', shp, dt, store])
    special = [(1,), (2,), (3,)] + ([(4,), (2, 2)] if tier == 'thorough' else [])
    for shp in special:
        for op in OPS: out.append(['special', shp, op])
    pats = [(4,), (2, 3), (1, 4), (5,)] + ([(3, 3), (2, 2, 2)] if tier == 'thorough' else [])
    for shp in pats:
        for op in OPS:
            for part in range(4): out.append(['nan', shp, op, part])
    out.append(['transposed'])
    out.append(['names'])
    out.append(['offset'])
    return out

def one(rec, v, d, op, sub, form, axes, loose=False):
    ids = names(axes, sub, form)
    what = '%s%s over %s of %s %s' % (op, tuple(str(i) for i in ids), sub, d.shape, d.dtype)
    want = refop(op, d, sub if len(sub) else range(d.ndim))
    r, err = ref.attempt(lambda: getattr(v, op)(*ids, **KW.get(op, {})))
    rec.step()
    key = '%s:%s' % (op, d.dtype.kind)
    if err is not None:
        rec.fail('%s raised %s: %s' % (what, type(err).__name__, err), key); return
    if len(sub) in (0, d.ndim) and not hasattr(r, 'axes'):
        got = r
    else:
        left = [a for i, a in enumerate(axes) if i not in sub]
        ok = len(r.axes) == len(left) and all(type(a) is type(b) and a.name == b.name and np.array_equal(a.values, b.values) for a, b in zip(r.axes, left))
        rec.check(ok, lambda: '%s: remaining axes %s, expected %s' % (what, r.axes, left), key)
        rec.check(r.name == v.name, lambda: '%s: name %r, expected %r' % (what, r.name, v.name), key)
        got, err = ref.attempt(r.get)
        if err is not None:
            rec.fail('%s: evaluation raised %s: %s' % (what, type(err).__name__, err), key); return
    tol = 1e-5 if d.dtype == 'float32' or loose else 1e-9
    rec.check(ref.same(got, want, tol, tol), lambda: ref.diffmsg(what, got, want), key)
    rec.state(op, np.asarray(want, dtype='d'))

def v_(axes, d): return ref.var(axes, d, 'mem')

def run(case, rec):
    t = case[0]
    if t == 'shape':
        _, shp, dt, store = case
        axes = [ref.axis(k, n) for k, n in zip(SPEC, shp)]
        d = ref.data(shp) % 13
        d = (d % 3 == 0) if dt == 'bool' else (d-5).astype(dt)
        v = ref.var(axes, d, store)
        for op in OPS:
            for sub in axsets(op, len(shp)):
                forms = ['name'] + (['rev', 'int', 'class', 'axis'] if store == 'mem' or len(shp) == 3 else [])
                for form in forms: one(rec, v, d, op, sub, form, axes)
    elif t == 'special':
        _, shp, op = case
        axes = [ref.axis(k, n) for k, n in zip(SPEC, shp)]
        if op in ('variance', 'stdev', 'nanvariance', 'nanstdev'): vals = (np.nan, 0., 2., -3.)
        else: vals = (np.nan, np.inf, -np.inf, 0., 2.)
        for c in itertools.product(vals, repeat=int(np.prod(shp))):
            d = np.array(c).reshape(shp)
            v = ref.var(axes, d, 'mem')
            for sub in axsets(op, len(shp)): one(rec, v, d, op, sub, 'name', axes)
    elif t == 'nan':
        _, shp, op, part = case
        axes = [ref.axis(k, n) for k, n in zip(SPEC, shp)]
        n = int(np.prod(shp))
        base = (ref.data(shp) % 17) - 6.
        for m in range(part, 1 << n, 4):
            mask = np.array([(m >> i) & 1 for i in range(n)], bool).reshape(shp)
            d = np.where(mask, np.nan, base)
            for sub in axsets(op, len(shp)):
                one(rec, ref.var(axes, d, ref.STORES[m % 3]), d, op, sub, 'name', axes)
    elif t == 'transposed':
        # the same reduction named in every way, after every transposition: same numbers
        shp = (2, 3, 2)
        axes = [ref.axis(k, n) for k, n in zip(SPEC, shp)]
        d = ref.data(shp) % 13 - 4.; d[0, 1, 1] = np.nan
        v = ref.var(axes, d, 'getview')
        for perm in itertools.permutations(range(3)):
            w = v.transpose(*[axes[i].name for i in perm])
            for op in OPS:
                for sub in axsets(op, 3):
                    one(rec, w, d.transpose(perm), op, sub, 'name', [axes[i] for i in perm])
    elif t == 'offset':
        # values far from zero compared with their spread, and constants: a spread is never negative, and not noise
        for shp in ((4,), (2, 3), (3, 2, 2)):
            axes = [ref.axis(k, n) for k, n in zip(SPEC, shp)]
            for dt, off in (('float32', 1e5), ('float32', -4096.), ('float64', 1e5), ('int32', 40000), ('int16', 300)):
                d = ((ref.data(shp) % 5) + off).astype(dt)
                for e in (d, np.full(shp, d.flat[0]), np.full(shp, .1 + off/1e5, 'd').astype(dt)):
                    for op in OPS:
                        for sub in axsets(op, len(shp)):
                            for store in ref.STORES: one(rec, ref.var(axes, e, store), e, op, sub, 'name', axes, True)
                            if op in ('variance', 'nanvariance') and len(sub):
                                r, err = ref.attempt(lambda: getattr(v_(axes, e), op)(*names(axes, sub, 'name')))
                                if err is None:
                                    g = np.asarray(r.get() if hasattr(r, 'axes') else r)
                                    rec.check(not (g < 0).any(), lambda: '%s of %s %s is negative: %s' % (op, e.dtype, e.tolist(), g), 'negative')
    elif t == 'names':
        # an unknown axis is refused
        axes = [ref.axis(k, n) for k, n in zip(SPEC, (2, 3))]
        v = ref.var(axes, ref.data((2, 3)), 'mem')
        for op in OPS:
            for bad in ('time', 'nosuch', 7):
                r, err = ref.attempt(lambda: getattr(v, op)(bad))
                rec.step()
                rec.check(err is not None, lambda: '%s(%r) on (lat,lon) did not fail' % (op, bad), 'names')
