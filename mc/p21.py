"""P21: conversion to and from xarray preserves values, coordinates and attributes."""
import itertools
import numpy as np
from . import ref, p18

BOUND = {'quick': 'variables on every axis kind of the P18 catalogue (alone, and as first or second dimension; three ways of storing the values), '
                  'every data type x 7 shapes, all attribute kinds, every P18 dataset with 8 limits on the values read at once, ~250 derived variables in 3 chunkings, '
                  'lazy variables of every shape in 6 chunkings with up to 9 selections per dimension, 11 datasets made with xarray, files read by both libraries, three conversions of datasets with the same names computed together; '
                  'each converted to xarray, back, and again',
         'thorough': 'the same with limits 1..60 and 1000 on the values read at once for every dataset, 7 chunkings of the derived variables, and finer selections of the lazy variables'}
HANG = 300
F = ('year', 'month', 'day', 'hour', 'minute', 'second')

def to(v):
    from pygeode import ext_xarray
    return ext_xarray.to_xarray(v)
def back(x):
    from pygeode import ext_xarray
    return ext_xarray.from_xarray(x)

def cases(tier):
    from . import ops
    out = [['axis', k] for k in p18.AX()]
    for dt in p18.V4 + ('bool', 'complex128', 'complex64', '>f4', '>i4', 'float16'):
        for n in range(len(p18.LAYS)): out.append(['dtype', dt, n])
    out += [['atts', k] for k in p18.ATTS]
    for k in p18.SETS(): out += [['dset', k, m, tier] for m in ((1, 2, 3, 5, 7, 12, 24, 1000) if tier == 'quick' else list(range(1, 61)) + [1000])]
    out += [['ops', i, tier] for i in range(len(ops.CAT()))] if callable(getattr(ops, 'CAT', None)) else [['ops', i, tier] for i in range(len(ops.catalogue()))]
    for n in range(len(p18.LAYS)):
        for m in (1, 2, 3, 5, 8, 24): out.append(['lazy', n, m, tier])
    out += [['pair', k, m] for k in p18.SETS() for m in (1, 3, 1000)]
    out += [['native', k] for k in NATIVE()] + [['units'], ['file']]
    return out

def run(case, rec):
    import warnings; warnings.simplefilter('ignore')
    try:
        with np.errstate(all='ignore'): globals()[case[0]](case, rec)
    finally: p18.clean()

def both(rec, what, key, vars_, atts=None, single=False):
    """vars_: list of (var, data); converted, checked against xarray's view, converted back"""
    import pygeode as pyg
    obj = vars_[0][0] if single else pyg.Dataset([v for v, d in vars_], atts=atts or {})
    X, err = ref.attempt(lambda: to(obj)); rec.step()
    if not rec.check(err is None, lambda: '%s: to_xarray: %r' % (what, err), key + ':to'): return None
    for v, d in vars_:
        if not rec.check(v.name in X.data_vars, lambda: '%s: %s is not in %s' % (what, v.name, list(X.data_vars)), key + ':names'): continue
        x = X[v.name]
        rec.check(x.dims == tuple(a.name for a in v.axes), lambda: '%s: %s has dimensions %s' % (what, v.name, x.dims), key + ':dims')
        g, err = ref.attempt(lambda: x.values); rec.step()
        rec.check(err is None and ref.same(g, d, 0, 0) and g.dtype == x.dtype and (g.dtype == d.dtype or d.dtype.byteorder == '>'), lambda: ref.diffmsg('%s: %s as xarray %r' % (what, v.name, err), g, d), key + ':values')
        p18.same_atts(rec, '%s: %s as xarray' % (what, v.name), dict(v.atts), {k: q for k, q in x.attrs.items() if not (k == 'units' and v.units and 'units' not in v.atts)}, key + ':atts', ('ancillary_variables',))
        if v.units: rec.check(x.attrs.get('units') == v.units, lambda: '%s: %s has units %s' % (what, v.name, x.attrs), key + ':atts')
        for a in v.axes:
            n = type(a).__name__
            if n in ('DummyAxis', 'Station', 'NonCoordinateAxis'): continue
            if not rec.check(a.name in X.coords, lambda: '%s: no coordinate %s' % (what, a.name), key + ':coord'): continue
            c = X.coords[a.name]
            if n in ('ModelTime365', 'ModelTime360') and 'year' not in a.auxarrays and c.dtype.kind == 'O':
                # (dates of a year 0)
                got, err = ref.attempt(lambda: [tuple(int(getattr(c.dt, f).values[i]) for f in F) for i in range(len(a))])
                want = [tuple(int(a.auxarrays[f][i]) if f in a.auxarrays else int(f in ('month', 'day')) for f in F) for i in range(len(a))]
                rec.check(err is None and got == want, lambda: '%s: %s is %s, expected %s' % (what, a.name, got, want), key + ':dates')
            elif n in ('StandardTime', 'ModelTime365', 'ModelTime360') and 'year' in a.auxarrays:
                want = [tuple(int(a.auxarrays[f][i]) if f in a.auxarrays else int(f in ('month', 'day')) for f in F) for i in range(len(a))]
                got, err = ref.attempt(lambda: [tuple(int(getattr(c.dt, f).values[i]) for f in F) for i in range(len(a))])
                # (fractions of seconds may be rounded down)
                if got != want and err is None:
                    z = [(c.values[i] + (np.timedelta64(1, 'ms') if c.dtype.kind == 'M' else __import__('datetime').timedelta(milliseconds=1))) for i in range(len(a))]
                    c2 = type(c)(np.array(z)) if c.dtype.kind != 'M' else type(c)(np.array(z, c.dtype))
                    got = [tuple(int(getattr(c2.dt, f).values[i]) for f in F) for i in range(len(a))]
                rec.check(err is None and got == want, lambda: '%s: %s is %s, expected %s' % (what, a.name, got, want), key + ':dates')
            else:
                rec.check(ref.same(c.values, a.values, 1e-9, 1e-9), lambda: ref.diffmsg('%s: %s' % (what, a.name), c.values, a.values), key + ':coord')
    p18.same_atts(rec, '%s as xarray' % what, atts or {}, X.attrs, key + ':gatts', ('Conventions', 'featureType'))
    ds, err = ref.attempt(lambda: back(X)); rec.step()
    if not rec.check(err is None, lambda: '%s: from_xarray: %r' % (what, err), key + ':from'): return X
    p18.same_ds(rec, what + ', converted back', key + ':back', vars_, ds, order=False)
    for v, d in vars_:
        rec.check(ds[v.name].dtype == d.dtype or d.dtype.byteorder == '>' if v.name in ds else True, lambda: '%s: dtype of %s is %s' % (what, v.name, ds[v.name].dtype), key + ':dtype')
    rec.state(key, what)
    return X

def axis(case, rec):
    k = case[1]
    for lay in (0, 1, 2):
        for store in ref.STORES:
            a = p18.AX()[k]()
            axs = [(a,), (a, p18.other()), (p18.other(), a)][lay]
            d = ref.data([len(x) for x in axs]) + .25
            v = ref.var(axs, d, store)
            X = both(rec, 'axis %s, layout %d, stored as %s' % (k, lay, store), k, [(v, d)], single=True)
            if X is None: continue
            Y, err = ref.attempt(lambda: back(to(back(X)))); rec.step()
            if rec.check(err is None, lambda: 'axis %s, again: %r' % (k, err), k + ':again'): p18.same_ds(rec, 'axis %s, layout %d, twice' % (k, lay), k + ':again', [(v, d)], Y, order=False)

def dtype(case, rec):
    _, dt, n = case
    t = np.dtype(dt).newbyteorder('=')
    for name in ('plain', 'extreme'):
        v, d = p18.mk(p18.LAYS[n], dt if dt != 'bool' else 'int8')
        if name == 'extreme' and np.dtype(dt).kind in 'iuf':
            d = np.resize(np.array(p18.extreme(dt), t), d.shape).astype(dt)
        if dt == 'bool': d = d % 2 == 0
        v, d = p18.mk(p18.LAYS[n], dt, d=d)
        both(rec, '%s %s %s' % (dt, p18.LAYS[n], name), 'dtype', [(v, d)])

def atts(case, rec):
    import pygeode as pyg
    x = p18.ATTS[case[1]]
    for name in ('note', 'Note_2', 'long_name'):
        if name == 'long_name' and not isinstance(x, str): continue
        a = pyg.Lon([1., 2.], atts={name: x}); t = pyg.StandardTime([1., 2.], units='days', startdate=dict(year=2000, month=1, day=1), atts={name: x})
        b = pyg.NamedAxis([1., 2.], 'foo', atts={name: x}) if name != 'long_name' else pyg.NamedAxis([1., 2.], 'foo')
        v = ref.var((t, b, a), ref.data((2, 2, 2)) + .5, atts={name: x, 'other': 'q'})
        both(rec, 'attribute %s = %r' % (name, x), 'atts:' + case[1], [(v, ref.data((2, 2, 2)) + .5)], atts={name: x, 'other': 'q'})

def dset(case, rec):
    _, k, m, tier = case
    vs, at = p18.SETS()[k]()
    with ref.chunks(m):
        X = both(rec, '%s, at most %d values at a time' % (k, m), 'set', vs, at)
        if X is not None:
            Y, err = ref.attempt(lambda: back(to(back(X)))); rec.step()
            if rec.check(err is None, lambda: '%s again: %r' % (k, err), 'set'): p18.same_ds(rec, '%s twice, at most %d values at a time' % (k, m), 'set', vs, Y, order=False)

def ops(case, rec):
    """every kind of derived variable, in chunks"""
    import pygeode as pyg
    from . import ops as O
    cat = O.CAT() if callable(getattr(O, 'CAT', None)) else O.catalogue()
    label, fn = cat[case[1]][:2]
    for m in (1, 4, 1000) if case[2] == 'quick' else (1, 2, 3, 4, 6, 12, 1000):
        r, err = ref.attempt(lambda: fn(O.Inputs('getview')))
        if err is not None: return
        vs = r.vars if isinstance(r, pyg.Dataset) else [q for q in (r if isinstance(r, (tuple, list)) else [r])]
        for i, v in enumerate(vs):
            if not isinstance(v, pyg.Var) or isinstance(v, pyg.axis.Axis): continue
            if v.naxes == 0: continue
            names = [a.name for a in v.axes]
            if len(set(names)) < len(names): continue
            d, err = ref.attempt(lambda: v.get())
            if err is not None: continue
            v = v.rename('res')
            what = '%s [%d], at most %d values at a time' % (label, i, m)
            with ref.chunks(m):
                X, err = ref.attempt(lambda: to(v)); rec.step()
                if not rec.check(err is None, lambda: '%s: %r' % (what, err), 'ops'): continue
                nm = 'res'
                if not rec.check(len(X.data_vars) >= 1 and nm in X, lambda: '%s: no variable %s in %s' % (what, nm, X), 'ops'): continue
                g, err = ref.attempt(lambda: X[nm].values); rec.step()
                rec.check(err is None and ref.same(g, d, 1e-9, 1e-9), lambda: ref.diffmsg('%s: %r' % (what, err), g, d), 'ops')
                w, err = ref.attempt(lambda: back(X)[nm].get()); rec.step()
                rec.check(err is None and ref.same(w, d, 1e-9, 1e-9), lambda: ref.diffmsg('%s, converted back: %r' % (what, err), w, d), 'ops:back')
                rec.state(label, i, m)

def pair(case, rec):
    """two converted datasets with variables of the same names, computed together"""
    import pygeode as pyg, dask
    _, k, m = case
    for how in ('values', 'shift', 'file', 'slice'):
        D = []
        for n in range(3):
            vs, at = p18.SETS()[k]()
            vs = [(v, d) for v, d in vs if d.dtype.kind in 'iuf']
            new = [ref.var(v.axes, d + d.dtype.type(n), 'getview', name=v.name) for v, d in vs]
            if how == 'shift': new = [(v + d.dtype.type(n)).rename(v.name) for v, d in vs]
            if how == 'slice': new = [v for v, d in vs]
            want = {v.name: (w.get() if how != 'values' else d + d.dtype.type(n)) for (v, d), w in zip(vs, new)}
            if how == 'slice':
                for i, (v, d) in enumerate(vs):
                    if d.ndim and d.shape[-1] > 2: new[i] = v.slice[tuple([slice(None)]*(d.ndim - 1) + [slice(n, n + 1)])]; want[v.name] = d[..., n:n + 1]
            ds = pyg.Dataset(new)
            if how == 'file': ds = p18.opn('p', p18.save('p4', ds))
            with ref.chunks(m): X, err = ref.attempt(lambda: to(ds)); rec.step()
            if not rec.check(err is None, lambda: '%s (%s): %r' % (k, how, err), 'pair'): return
            D.append((X, want))
        names = list(D[0][1])
        got, err = ref.attempt(lambda: dask.compute(*[X[q].data for X, w in D for q in names], scheduler='synchronous')); rec.step()
        if not rec.check(err is None, lambda: '%s (%s): %r' % (k, how, err), 'pair'): continue
        for (X, w), q, g in zip([x for x in D for q in names], names*len(D), got):
            rec.check(ref.same(g, w[q], 0, 0), lambda: ref.diffmsg('%s: %s of three conversions computed together (%s)' % (k, q, how), g, w[q]), 'pair')
        rec.state(k, m, how)

def lazy(case, rec):
    """nothing is read before it is needed, and only the chunks that are"""
    import pygeode as pyg
    _, n, m, tier = case
    v0, d = p18.mk(p18.LAYS[n]); log = []
    if not v0.naxes: return
    class V(pyg.Var):
        def getview(self, view, pbar):
            log.append(tuple(len(i) for i in view.integer_indices))
            return d[np.ix_(*view.integer_indices)]
    v = V(v0.axes, name='v', dtype=d.dtype)
    with ref.chunks(m):
        X, err = ref.attempt(lambda: to(v)); rec.step()
        if not rec.check(err is None, lambda: 'lazy: %r' % (err,), 'lazy'): return
    rec.check(log == [], lambda: '%s: values were read on conversion' % (p18.LAYS[n],), 'lazy')
    Y, err = ref.attempt(lambda: back(X)); rec.check(err is None and log == [], lambda: '%s: values were read on conversion: %r' % (p18.LAYS[n], err), 'lazy')
    S = [p18.sels(k, tier)[:9] for k in d.shape]
    if d.ndim > 2: S = [s[::2] for s in S]
    if d.ndim > 3: S = [s[::2] for s in S]
    for sl in itertools.product(*S):
        x = d
        for i in range(d.ndim)[::-1]: x = x[(slice(None),)*i + (sl[i],)]
        del log[:]
        g, err = ref.attempt(lambda: X.v.isel({a.name: s for a, s in zip(v.axes, sl)}).values); rec.step()
        rec.check(err is None and ref.same(g, x, 0, 0), lambda: ref.diffmsg('%s in chunks of %d at %s: %r' % (p18.LAYS[n], m, sl, err), g, x), 'lazy')
        if np.size(x) == 1: rec.check(sum(np.prod(q) for q in log) <= m, lambda: '%s in chunks of %d: reading one value reads %s' % (p18.LAYS[n], m, log), 'lazy:chunks')
        if err is None and Y is not None:
            g, err = ref.attempt(lambda: Y.v[sl] if d.ndim > 1 else Y.v[(sl[0],)]); rec.step()
            rec.check(err is None and ref.same(g, x, 0, 0), lambda: ref.diffmsg('%s in chunks of %d converted back at %s: %r' % (p18.LAYS[n], m, sl, err), g, x), 'lazy:back')
    rec.state(n, m)

def NATIVE():
    """datasets made with xarray: {name: (builder, checks)}"""
    import xarray as xr, pandas as pd, cftime
    d = np.arange(24.).reshape(2, 3, 4)
    lat = ('lat', [10., 20., 30.], dict(units='degrees_north')); lon = ('lon', [0., 90., 180., 270.], dict(standard_name='longitude'))
    T = lambda cal: [cftime.datetime(2000, 2, 28, 6, calendar=cal), cftime.datetime(2000, 3, 1, calendar=cal)]
    N = {}
    N['plain'] = lambda: (xr.Dataset(dict(v=(('q', 'lat', 'lon'), d, dict(units='K', n=3))), coords=dict(lat=lat, lon=lon), attrs=dict(title=u'abc')), dict(lat='Lat', lon='Lon', q='DummyAxis'), None)
    N['chunks'] = lambda: (xr.Dataset(dict(v=(('q', 'lat', 'lon'), d, dict(units='K', n=3))), coords=dict(lat=lat, lon=lon), attrs=dict(title=u'abc')).chunk(dict(q=1, lat=2, lon=3)), dict(lat='Lat', lon='Lon', q='DummyAxis'), None)
    N['days'] = lambda: (xr.Dataset(dict(v=(('time', 'lat', 'lon'), d, dict(units='K', n=3))), coords=dict(lat=lat, lon=lon, time=pd.to_datetime(['2000-02-28 06:00', '2000-03-01 00:00'])), attrs=dict(title='abc')), dict(time='StandardTime'), [(2000, 2, 28, 6, 0, 0), (2000, 3, 1, 0, 0, 0)])
    N['seconds'] = lambda: (xr.Dataset(dict(v=(('time', 'lat', 'lon'), d, dict(units='K', n=3))), coords=dict(lat=lat, lon=lon, time=pd.to_datetime(['1950-02-28 06:11:12', '2010-03-01 23:59:59'])), attrs=dict(title='abc')), dict(time='StandardTime'), [(1950, 2, 28, 6, 11, 12), (2010, 3, 1, 23, 59, 59)])
    for cal, cls in (('noleap', 'ModelTime365'), ('360_day', 'ModelTime360'), ('proleptic_gregorian', 'StandardTime'), ('standard', 'StandardTime')):
        N[cal] = lambda cal=cal, cls=cls: (xr.Dataset(dict(v=(('time', 'lat', 'lon'), d, dict(units='K', n=3))), coords=dict(lat=lat, lon=lon, time=T(cal)), attrs=dict(title='abc')), dict(time=cls), [(2000, 2, 28, 6, 0, 0), (2000, 3, 1, 0, 0, 0)])
    N['scalar'] = lambda: (xr.Dataset(dict(v=(('q', 'lat', 'lon'), d, dict(units='K', n=3))), coords=dict(lat=lat, lon=lon, level=5.)), dict(lat='Lat'), None)
    N['noname'] = lambda: (xr.Dataset(dict(v=(('q', 'lat', 'lon'), d, dict(units='K', n=3))), coords=dict(q=[5., 7.])), dict(q='NamedAxis', lat='DummyAxis'), None)
    N['two'] = lambda: (xr.Dataset(dict(v=(('q', 'lat', 'lon'), d, dict(units='K', n=3)), area=(('lat', 'lon'), d[0]), mask=(('lat',), np.array([1, 0, 1], 'int8'))), coords=dict(lat=lat, lon=lon)), dict(lat='Lat'), None)
    N['curv'] = lambda: (xr.Dataset(dict(v=(('q', 'y', 'x'), d, dict(units='K', n=3))), coords=dict(latitude=(('y', 'x'), d[0]), y=('y', [1., 2., 3.], dict(axis='Y')))), dict(y='YAxis', x='DummyAxis'), None)
    return N

def native(case, rec):
    import pygeode as pyg
    X, cls, dates = NATIVE()[case[1]]()
    Y, err = ref.attempt(lambda: back(X)); rec.step()
    if not rec.check(err is None, lambda: '%s: %r' % (case[1], err), 'native'): return
    d = X.v.values; v = Y.v
    rec.check([a.name for a in v.axes] == list(X.v.dims), lambda: '%s: axes %r' % (case[1], v.axes), 'native')
    for a in v.axes:
        if a.name in cls: rec.check(type(a).__name__ == cls[a.name], lambda: '%s: axis %s is a %s' % (case[1], a.name, type(a).__name__), 'native')
        if a.name in X.coords and a.name != 'time': rec.check(ref.same(a.values, X[a.name].values, 0, 0), lambda: ref.diffmsg(case[1], a.values, X[a.name].values), 'native')
    if dates: rec.check([tuple(int(v.time.auxarrays[f][i]) for f in F) for i in range(2)] == dates, lambda: '%s: dates %s' % (case[1], v.time.auxarrays), 'native:dates')
    rec.check({k: v.atts[k] for k in v.atts if k != 'coordinates'} == dict(units='K', n=3) and v.units == 'K' and Y.atts == dict(X.attrs), lambda: '%s: attributes %s %s' % (case[1], v.atts, Y.atts), 'native:atts')
    for nm in X.variables:
        if nm in X.dims: continue
        if nm in Y: rec.check(ref.same(Y[nm].get(), X[nm].values, 0, 0), lambda: ref.diffmsg('%s %s' % (case[1], nm), Y[nm].get(), X[nm].values), 'native')
        else: rec.check(any(nm in a.auxarrays for a in Y.axes), lambda: '%s: %s is lost' % (case[1], nm), 'native')
    for sl in itertools.product(*[p18.sels(k, 'quick') for k in d.shape]):
        x = d
        for i in range(d.ndim)[::-1]: x = x[(slice(None),)*i + (sl[i],)]
        g, err = ref.attempt(lambda: v[sl]); rec.step()
        rec.check(err is None and ref.same(g, x, 0, 0), lambda: ref.diffmsg('%s at %s: %r' % (case[1], sl, err), g, x), 'native:read')
    g, err = ref.attempt(lambda: to(Y)); rec.step()
    if rec.check(err is None, lambda: '%s and back: %r' % (case[1], err), 'native:again'):
        rec.check(g.v.dims == X.v.dims and ref.same(g.v.values, d, 0, 0) and all(k in g.variables for k in X.variables), lambda: '%s and back: %s' % (case[1], g), 'native:again')
        for k in X.dims:
            if k in X.coords: rec.check(bool(np.all(g[k].values == X[k].values)) or k == 'time', lambda: '%s and back: %s' % (case[1], g[k]), 'native:again')
    rec.state(case[1])

def units(case, rec):
    for u in ('K', 'm s^-1', 'days', 'hours', 's', 'degrees_north', 'hPa', '1', '%'):
        for how in ('both', 'atts'):   # (a variable read back has them in both places)
            v, d = p18.mk(('lat', 'lon'))
            v.atts['units'] = u
            if how == 'both': v.units = u
            both(rec, 'units %s given as %s' % (u, how), 'units', [(v, d)])

def file(case, rec):
    """variables of netCDF files, and of xarray's own reader"""
    import xarray as xr, pygeode as pyg
    for k in p18.SETS():
        for w in ('c3', 'p4'):
            vs, at = p18.SETS()[k]()
            p = p18.save(w, pyg.Dataset([v for v, d in vs], atts=at))
            for r in p18.R:
                ds = p18.opn(r, p)
                for m in (3, 1000):
                    with ref.chunks(m):
                        X, err = ref.attempt(lambda: to(ds)); rec.step()
                        if not rec.check(err is None, lambda: '%s saved with %s, opened with %s: %r' % (k, w, r, err), 'file'): continue
                        for v, d in vs:
                            g, err = ref.attempt(lambda: X[v.name].compute(scheduler='synchronous').values); rec.step()
                            rec.check(err is None and ref.same(g, d, 0, 0), lambda: ref.diffmsg('%s saved with %s, opened with %s: %s %r' % (k, w, r, v.name, err), g, d), 'file')
            X = xr.open_dataset(p, engine='netcdf4')
            Y, err = ref.attempt(lambda: back(X)); rec.step()
            if rec.check(err is None, lambda: '%s saved with %s, opened with xarray: %r' % (k, w, err), 'file:xr'):
                p18.same_ds(rec, '%s saved with %s, opened with xarray' % (k, w), 'file:xr', vs, Y, w[1] == '3', order=False)
            X.close()
            rec.state(k, w)
