"""P18: saving to netCDF and opening again returns the same dataset."""
import gc, itertools, os, shutil, tempfile
import numpy as np
from . import ref, cal as C

BOUND = {
 'quick': '182 axes (X/Y/Z/T, latitude, longitude, pressure, hybrid, generic, dimension only, station and non-coordinate axes, 3 calendars in 4 units, climatological and year-less times; descending, unordered, single, named, with attributes and auxiliary arrays) alone and in two positions, '
          'saved by both interfaces in netCDF-3, netCDF-4 and compressed netCDF-4, opened by both, saved and opened a second time by every interface and format; dates in the file also read with cftime; 13 dtypes with ordinary and extreme values in 7 layouts; 31 attribute values on variables, axes and files; '
          'all selections (9 per dimension, thinned above 3 dimensions) of the opened variables; 7 datasets with every unlimited dimension, memory limits of 1 to 24 values, chains of 2 save/open cycles, pairs as groups, every varlist, namemap, dimtypes and value_override',
 'thorough': 'the same with 14 selections per dimension, memory limits of 1 to 60 values and chains of 3 save/open cycles'}
HANG = 300

W = {'c3': ('c', dict(version=3)), 'c4': ('c', dict(version=4)), 'cz': ('c', dict(version=4, compress=True)),
     'p3': ('p', dict(version=3)), 'p4': ('p', dict(version=4)), 'pz': ('p', dict(version=4, compress=True))}
R = ('c', 'p')
V3 = ('int8', 'int16', 'int32', 'float32', 'float64')
V4 = V3 + ('uint8', 'uint16', 'uint32', 'int64', 'uint64')

_dir = [None, 0]
def path():
    if _dir[0] is None or _dir[2] != os.getpid():
        d = ref.tmpdir('pnc'); _dir[:] = [d, 0, os.getpid()]
    _dir[1] += 1
    return os.path.join(_dir[0], 'f%d.nc' % _dir[1])

def clean():
    gc.collect()
    if _dir[0] is not None: shutil.rmtree(_dir[0], ignore_errors=True)
    _dir[0] = None

def drv(k):
    from pygeode.formats import netcdf, netcdf4
    return {'c': netcdf, 'p': netcdf4}[k]

def save(w, obj, out=None, **kw):
    m, o = W[w]
    p = out or path()
    drv(m).save(p, obj, **dict(o, **kw))
    return p

def opn(r, p, **kw): return drv(r).open(p, **kw)

# ---- the axes that have a netCDF representation -----------------------------------------------------
def AX():
    import pygeode as pyg
    from pygeode.axis import NamedAxis, NonCoordinateAxis, Station, DummyAxis
    ax = {}
    f4 = lambda *v: np.array(v, 'float32'); i4 = lambda *v: np.array(v, 'int32')
    S = lambda *v: np.array(v)
    cls = dict(x=pyg.XAxis, y=pyg.YAxis, z=pyg.ZAxis, lat=pyg.Lat, lon=pyg.Lon, pres=pyg.Pres, t=pyg.axis.TAxis)
    for k, c in cls.items():
        ax[k] = lambda c=c: c([10., 20., 35., 80.])
        ax[k + ':desc'] = lambda c=c: c([80., 35., 20.5])
        ax[k + ':uns'] = lambda c=c: c([20., 80., 10., 35.])
        ax[k + ':one'] = lambda c=c: c([45.])
        ax[k + ':f4'] = lambda c=c: c(f4(.1, .2, .30001))
        ax[k + ':i4'] = lambda c=c: c(i4(1, 5, 7))
        ax[k + ':named'] = lambda c=c: c([10., 20., 35.], name='q')
        ax[k + ':atts'] = lambda c=c: c([10., 20., 35.], atts=dict(note='abc', n=3, r=1.5))
        ax[k + ':aux'] = lambda c=c: c([10., 20., 35.], bb=np.array([3., 1., 2.]), k=i4(7, 8, 9))
    N = {'a_b': np.array([3., 1., 2.]), 'lat_': np.array([4., 1., 2.]), 'foo_x': i4(7, 8, 9), 'A': np.array([5., 1., 2.]), 'b_lat': np.array([6., 1., 2.])}
    for k, c in cls.items(): ax[k + ':auxn'] = lambda c=c: c([10., 20., 35.], **N)
    ax['foo:auxn'] = lambda: NamedAxis([10., 20., 35.], 'foo', **N)
    ax['fo:auxn'] = lambda: NamedAxis([10., 20., 35.], 'foo_x', foo_x=N['a_b'], x=N['A'])
    ax['hyb:auxn'] = lambda: pyg.Hybrid([.2, .5, .9], A=np.array([3., 1., 2.]), B=np.array([.1, .5, .7]), dA_B=np.array([7., 1., 2.]), name='A')
    ax['st:auxn'] = lambda: Station(station=S('aa', 'b', 'ccc'), station_x=np.array([7., 1., 2.]), lat_2=np.array([8., 1., 2.]), a_name=S('p', 'qq', 'r'), a_b_c=i4(4, 1, 3))
    ax['std:auxn'] = lambda: pyg.StandardTime([4., 5., 7.], units='days', startdate=dict(year=2001, month=1, day=1), **N)
    ax['lat:weights'] = lambda: pyg.Lat([10., 20., 35.], weights=np.array([1., 5., 2.]))
    ax['lon:weights'] = lambda: pyg.Lon([10., 20., 35.], weights=np.array([1., 5., 2.]))
    ax['hyb'] = lambda: pyg.Hybrid([.2, .5, .9], A=np.array([3., 1., 2.]), B=np.array([.1, .5, .7]))
    ax['hyb:named'] = lambda: pyg.Hybrid([.2, .5, .9], A=np.array([3., 1., 2.]), B=np.array([.1, .5, .7]), name='lev')
    ax['hyb:aux'] = lambda: pyg.Hybrid([.2, .5], A=np.array([3., 1.]), B=np.array([.1, .5]), dA=np.array([5., 6.]), atts=dict(note='abc'))
    ax['foo'] = lambda: NamedAxis([10., 20., 35., 80.], 'foo')
    ax['foo:uns'] = lambda: NamedAxis([20., 80., 10., 35.], 'foo')
    ax['foo:i4'] = lambda: NamedAxis(i4(4, 2, 9), 'foo')
    ax['foo:i8'] = lambda: NamedAxis(np.array([4, 2, 9]), 'foo')
    ax['foo:f4'] = lambda: NamedAxis(f4(.1, .2, .3), 'foo')
    ax['foo:one'] = lambda: NamedAxis([45.], 'foo')
    ax['foo:aux'] = lambda: NamedAxis([10., 20., 35.], 'foo', bb=np.array([3., 1., 2.]), k=i4(7, 8, 9))
    ax['foo:atts'] = lambda: NamedAxis([10., 20., 35.], 'foo', atts=dict(note='abc', n=3, r=1.5, units='K'))
    ax['dum'] = lambda: DummyAxis(4, name='dum')
    ax['st'] = lambda: Station(station=S('aa', 'b', 'ccc', 'dd'))
    ax['st:one'] = lambda: Station(station=S('aa'))
    ax['st:ll'] = lambda: Station(station=S('aa', 'b', 'ccc'), lat=np.array([10., 20.5, -30.]), lon=np.array([1., 350., 20.]))
    ax['st:more'] = lambda: Station(station=S('aa', 'b', 'ccc'), lat=np.array([10., 20.5, -30.]), lon=np.array([1., 350., 20.]), l=np.array([5., 6., 7.]), country=S('x', 'yy', 'zzz'), code=i4(4, 1, 3))
    ax['nc:ll'] = lambda: NonCoordinateAxis(lat=np.array([10., 20.5, -30.]), lon=np.array([1., 350., 20.]), name='obs')
    ax['nc:s'] = lambda: NonCoordinateAxis(obs=S('aa', 'b', 'ccc'), name='obs')
    ax['nc:n'] = lambda: NonCoordinateAxis(k=i4(4, 1, 3), l=np.array([.5, .25, 4.]), name='obs')
    for cal in ('std', 'm365', 'm360'):
        T = C.cls(cal)
        for u in C.UNIT:
            ax['%s:%s' % (cal, u)] = lambda T=T, u=u: T([0., 1., 5., 7., 20.], units=u, startdate=dict(year=1999, month=12, day=29, hour=18))
        ax[cal + ':int'] = lambda T=T: T(np.array([3, 4, 9]), units='days', startdate=dict(year=2000, month=2, day=27))
        ax[cal + ':frac'] = lambda T=T: T([.25, 1/3., .5, 40.75], units='days', startdate=dict(year=2000, month=2, day=27))
        ax[cal + ':desc'] = lambda T=T: T([400., 31., 30., -5.], units='days', startdate=dict(year=2001, month=3, day=1))
        ax[cal + ':uns'] = lambda T=T: T([4., 31., 0.], units='hours', startdate=dict(year=2001, month=3, day=1))
        ax[cal + ':fields'] = lambda T=T: T(year=np.array([1999, 2000, 2000]), month=np.array([12, 2, 3]), day=np.array([30, 28, 1]))
        ax[cal + ':fieldsec'] = lambda T=T: T(year=np.array([1999, 2000]), month=np.array([12, 2]), day=np.array([30, 28]), hour=np.array([5, 6]), minute=np.array([7, 8]), second=np.array([9, 59]), units='seconds')
        ax[cal + ':one'] = lambda T=T: T([4.], units='days', startdate=dict(year=2001, month=3, day=1))
        ax[cal + ':named'] = lambda T=T: T([4., 5.], units='days', startdate=dict(year=2001, month=3, day=1), name='when')
        ax[cal + ':atts'] = lambda T=T: T([4., 5.], units='days', startdate=dict(year=2001, month=3, day=1), atts=dict(note='abc'))
        ax[cal + ':far'] = lambda T=T: T([4., 5000.5], units='days', startdate=dict(year=1850, month=1, day=1))
        ax[cal + ':y1'] = lambda T=T: T([4., 500.], units='days', startdate=dict(year=1, month=1, day=1))
        ax[cal + ':clim'] = lambda T=T: T(month=np.array([1, 2, 7, 12]), day=np.array([1, 5, 15, 30]))
        ax[cal + ':climm'] = lambda T=T: T(month=np.arange(1, 13))
        ax[cal + ':climh'] = lambda T=T: T(month=np.array([1, 1, 2]), day=np.array([1, 1, 5]), hour=np.array([0, 6, 12]), units='hours')
        ax[cal + ':climnamed'] = lambda T=T: T(month=np.array([1, 2, 7, 12]), day=np.array([1, 5, 15, 30]), name='when', atts=dict(note='abc'), extra=np.array([5., 3., 2., 7.]))
        ax[cal + ':aux'] = lambda T=T: T([4., 5.], units='days', startdate=dict(year=2001, month=3, day=1), extra=np.array([3., 7.]))
    for u in C.UNIT: ax['yl:' + u] = lambda u=u: pyg.Yearless([0., 1.5, 7.], units=u, startdate=dict(day=1))
    return ax

def same_axis(rec, what, a, b, key, v3=False):
    from pygeode.timeaxis import Time
    key = key + ':axis'
    ok = rec.check(type(b) is type(a) or type(a).__name__ == 'DummyAxis' and isinstance(b, type(a)), lambda: '%s: axis %s is a %s, was a %s' % (what, a.name, type(b).__name__, type(a).__name__), key + 'class')
    rec.check(b.name == a.name, lambda: '%s: axis %s is called %s' % (what, a.name, b.name), key + 'name')
    tol = 1e-9 if isinstance(a, Time) else 0
    rec.check(ref.same(b.values, a.values, tol, tol), lambda: ref.diffmsg('%s: axis %s' % (what, a.name), b.values, a.values), key + 'values')
    if not (v3 and str(a.values.dtype) not in V3) and not isinstance(a, Time): rec.check(a.values.dtype == b.values.dtype, lambda: '%s: dtype of axis %s is %s, was %s' % (what, a.name, b.values.dtype, a.values.dtype), key + 'dtype')
    # fields of a date that were not given are filled in
    fill = [k for k in b.auxarrays if k in getattr(a, 'allowed_fields', ()) and k not in a.auxarrays and k != 'year' and np.all(b.auxarrays[k] == (k in ('month', 'day')))]
    rec.check(set(a.auxarrays) == set(b.auxarrays) - set(fill), lambda: '%s: axis %s has arrays %s, had %s' % (what, a.name, sorted(b.auxarrays), sorted(a.auxarrays)), key + 'aux')
    for k in set(a.auxarrays) & set(b.auxarrays):
        rec.check(ref.same(b.auxarrays[k], a.auxarrays[k], 0, 0), lambda: ref.diffmsg('%s: array %s of axis %s' % (what, k, a.name), b.auxarrays[k], a.auxarrays[k]), key + 'aux')
    if isinstance(a, Time) and isinstance(b, Time):
        rec.check(a.units == b.units, lambda: '%s: axis %s in %s, was %s' % (what, a.name, b.units, a.units), key + 'units')
        if 'year' in a.auxarrays: rec.check(dict({k: int(k in ('month', 'day')) for k in b.startdate}, **a.startdate) == b.startdate, lambda: '%s: axis %s from %s, was %s' % (what, a.name, b.startdate, a.startdate), key + 'start')
    same_atts(rec, what + ': axis ' + a.name, a.atts, b.atts, key + 'atts', ('standard_name',), v3)
    return ok

def same_att(x, y):
    if isinstance(x, str) or isinstance(y, str): return isinstance(x, str) and isinstance(y, str) and x == y
    x = np.asarray(x); y = np.asarray(y)
    if x.size == 1 and y.size == 1: x = x.ravel(); y = y.ravel()
    return x.shape == y.shape and bool(np.all((x == y) | ((x != x) & (y != y))))

def same_atts(rec, what, x, y, key, extra=(), v3=False):
    for k in x:
        rec.check(k in y and same_att(x[k], y[k]), lambda: '%s: attribute %s is %r, was %r' % (what, k, y.get(k, 'gone'), x[k]), key)
    more = [k for k in y if k not in x and k not in extra]
    rec.check(not more, lambda: '%s: attributes %s appeared' % (what, {k: y[k] for k in more}), key)

def same_ds(rec, what, key, want, ds, v3=False, order=True):
    """want: list of (var, data)"""
    names = [v.name for v, d in want]
    if not rec.check([v.name for v in ds.vars] == names if order else sorted(v.name for v in ds.vars) == sorted(names), lambda: '%s: variables %s, were %s' % (what, [v.name for v in ds.vars], names), key + ':vars'): return False
    for v, d in want:
        w = ds[v.name]
        if not rec.check([a.name for a in w.axes] == [a.name for a in v.axes] and w.shape == v.shape, lambda: '%s: %s is on %s %s, was on %s' % (what, v.name, [a.name for a in w.axes], w.shape, [a.name for a in v.axes]), key + ':dims'): continue
        for a, b in zip(v.axes, w.axes): same_axis(rec, '%s: %s' % (what, v.name), a, b, key, v3)
        g, err = ref.attempt(lambda: np.asarray(w.get())); rec.step()
        rec.check(err is None and ref.same(g, d, 0, 0), lambda: ref.diffmsg('%s: %s %r' % (what, v.name, err), g, d), key + ':values')
        if str(d.dtype) in (V3 if v3 else V4): rec.check(err is None and g.dtype == d.dtype == w.dtype, lambda: '%s: dtype of %s is %s (%s), was %s' % (what, v.name, w.dtype, None if err else g.dtype, d.dtype), key + ':dtype')
        same_atts(rec, '%s: %s' % (what, v.name), v.atts, w.atts, key + ':atts', ('coordinates', 'ancillary_variables'), v3)
        if v.units: rec.check(w.units == v.units, lambda: '%s: units of %s are %r, were %r' % (what, v.name, w.units, v.units), key + ':varunits')
        rec.state(key, d)
    return True

def cycle(rec, what, key, vars_, w, r, atts=None, **kw):
    import pygeode as pyg
    obj = pyg.Dataset([v for v, d in vars_], atts=atts or {})
    p, err = ref.attempt(lambda: save(w, obj, **kw)); rec.step()
    what = '%s saved with %s%s' % (what, w, kw or '')
    if not rec.check(err is None, lambda: '%s: %r' % (what, err), key + ':save'): return None
    what += ' and opened with %s' % r
    ds, err = ref.attempt(lambda: opn(r, p)); rec.step()
    if not rec.check(err is None, lambda: '%s: %r' % (what, err), key + ':open'): return None
    same_ds(rec, what, key, vars_, ds, w[1] == '3')
    same_atts(rec, what, atts or {}, ds.atts, key + ':gatts', ('Conventions', 'featureType'))
    rec.state(key, w, r, what)
    return ds

def cases(tier):
    out = [['axis', k, tier] for k in AX()]
    out += [['cftime', k] for k in AX() if k.split(':')[0] in ('std', 'm365', 'm360') and ':clim' not in k]
    for dt in V4 + ('>f4', '>i4', '>f8'):
        for n in range(len(LAYS)): out.append(['dtype', dt, n])
    for k in ATTS: out.append(['atts', k])
    for n in range(len(LAYS)):
        for w in W: out.append(['read', n, w, tier])
    for k in SETS(): out += [['dset', k], ['unlim', k], ['lim', k, tier], ['opts', k]]
    for k in SETS():
        for w in W: out.append(['hist', k, w, tier])
    for k in itertools.combinations(list(SETS()), 2): out.append(['groups', list(k)])
    out += [['units'], ['single'], ['clash']]
    return out

LAYS = [(), ('lon',), ('lat', 'lon'), ('lon', 'lat'), ('time', 'lat', 'lon'), ('lat', 'time', 'pres', 'lon'), ('lon', 'pres', 'foo', 'lat', 'time')]

def axd(n=0):
    import pygeode as pyg
    return dict(lon=pyg.Lon([0., 90., 180., 270.]), lat=pyg.Lat([-40., 10., 55.]), pres=pyg.Pres([850., 100.]), foo=pyg.NamedAxis([3., 1., 2.], 'foo'),
                time=pyg.StandardTime([0., 1., 2., 31., 60.], units='days', startdate=dict(year=2000, month=1, day=30)),
                time2=pyg.ModelTime365([5., 10.], units='hours', startdate=dict(year=2001, month=1, day=30), name='time2'),
                station=pyg.axis.Station(station=np.array(['aa', 'b', 'ccc']), elev=np.array([10., 20.5, -30.])),
                dum=pyg.axis.DummyAxis(2, name='dum'))

def mk(lay, dt='float64', name='v', salt=0, d=None, **kw):
    axs = tuple(axd()[k] for k in lay)
    if d is None: d = np.asarray(ref.data([len(a) for a in axs], salt=salt)) % 120
    d = np.asarray(d).astype(dt)
    if not axs:
        import pygeode as pyg
        return pyg.Var((), values=d, name=name, **kw), d
    return ref.var(axs, d, 'getvalues', name=name, **kw), d

def SETS():
    import pygeode as pyg
    f = axd()
    nan = lambda *s: np.where(ref.data(s) % 3 == 0, np.nan, ref.data(s) % 50 + .5)
    s = {}
    s['two'] = lambda: ([mk(('time', 'lat', 'lon'), atts=dict(units='K', long_name='temperature')), mk(('lat',), 'float32', 'w', 1)], dict(title='abc', n=3))
    s['mixed'] = lambda: ([mk((), name='zero'), mk(('lon',), 'int32', 'a', 2), mk(('lat', 'pres'), 'float32', 'b', 3), mk(('time', 'pres', 'lat', 'lon'), 'float64', 'c', 4)], {})
    s['nan'] = lambda: ([mk(('time', 'lat'), 'float32', 'a', d=nan(5, 3)), mk(('time', 'lat'), 'float64', 'b', d=nan(5, 3)*2), mk(('lon',), 'float64', 'c', d=np.array([np.nan]*4)), mk(('lon',), 'float32', 'e', d=np.array([np.inf, -np.inf, 0., 1e-30]))], {})
    s['times'] = lambda: ([mk(('time', 'lon'), name='a'), mk(('time2', 'lon'), name='b', salt=1)], dict(history='x\ny'))
    s['aux'] = lambda: ([mk(('lat', 'lon'), name='weights'), mk(('lat',), name='A', salt=1), mk(('station', 'time'), name='obs', salt=2)], {})
    s['dum'] = lambda: ([mk(('dum', 'lon'), name='bnds'), mk(('lon', 'dum'), name='q', salt=1)], {})
    s['order'] = lambda: ([mk(('lon', 'lat'), name='z'), mk(('lat', 'lon'), name='a', salt=1), mk(('foo',), name='m', salt=2)], {})
    return s

ATTS = {'str': 'abc', 'empty': '', 'space': '  a b ', 'lines': 'a\nb\n', 'utf': 'Température °C', 'int': 5, 'neg': -7, 'i32max': 2**31-1, 'float': .1, 'zero': 0, 'big': 2**40, 'bigneg': -2**31-1,
        'np.f4': np.float32(.1), 'np.f8': np.float64(1e300), 'np.i2': np.int16(-3), 'np.i4': np.int32(7), 'np.i8': np.int64(9), 'np.i1': np.int8(-3), 'np.str': np.str_('xyz'), 'inf': np.inf, 'nan': np.nan,
        'ilist': [1, 2, 3], 'flist': [.5, .25], 'ftuple': (.5, -3.), 'af4': np.array([.1, .2], 'float32'), 'af8': np.array([.1, 1e200]), 'ai4': np.array([3, -4], 'int32'), 'ai2': np.array([3, -4], 'int16'), 'a1': np.array([2.5]), 'digits': '12', 'long': 'x'*3000, 'slist4': ['a', 'bc', '']}

def run(case, rec):
    import warnings; warnings.simplefilter('ignore')
    try:
        with np.errstate(all='ignore'): globals()[case[0]](case, rec)
    finally: clean()

def other():
    import pygeode as pyg
    return pyg.NamedAxis([3., 1.], 'oth')

def axis(case, rec):
    _, k, tier = case
    for lay in (0, 1, 2):
        a = AX()[k]()
        axs = [(a,), (a, other()), (other(), a)][lay]
        d = ref.data([len(x) for x in axs]) + .25
        v = ref.var(axs, d, 'getview')
        for w in W:
            for r in R:
                key = k.split(':')[0] if 0 else 'axis'
                ds = cycle(rec, 'axis %s, layout %d' % (k, lay), k, [(v, d)], w, r)
                if ds is None or lay: continue
                for w2 in W:
                    r2 = 'cp'[r == 'c']
                    p, err = ref.attempt(lambda: save(w2, ds)); rec.step()
                    if not rec.check(err is None, lambda: 'axis %s, via %s %s, again %s: %r' % (k, w, r, w2, err), k + ':save'): continue
                    e, err = ref.attempt(lambda: opn(r2, p)); rec.step()
                    if not rec.check(err is None, lambda: 'axis %s, via %s %s, again %s: %r' % (k, w, r, w2, err), k + ':open'): continue
                    same_ds(rec, 'axis %s, via %s %s, again %s %s' % (k, w, r, w2, r2), k, [(v, d)], e, w[1] == '3' or w2[1] == '3')

def cftime(case, rec):
    """the dates in the file, as an independent implementation of the convention reads them"""
    import netCDF4, cftime
    k = case[1]
    a = AX()[k]()
    v = ref.var((a,), ref.data((len(a),)) + .5)
    F = ('year', 'month', 'day', 'hour', 'minute', 'second')
    want = [tuple(int(a.auxarrays[f][i]) if f in a.auxarrays else int(f in ('month', 'day')) for f in F) for i in range(len(a))]
    for w in W:
        p, err = ref.attempt(lambda: save(w, v)); rec.step()
        if not rec.check(err is None, lambda: '%s: %r' % (k, err), 'cftime'): continue
        with netCDF4.Dataset(p) as f:
            t = f.variables[a.name]
            if 'y1' in k and t.calendar == 'standard': cal = 'proleptic_gregorian'
            else: cal = t.calendar
            g = [(x.year, x.month, x.day, x.hour, x.minute, x.second) for x in [cftime.num2date(float(q) + 0*1e-9, t.units, cal) + __import__('datetime').timedelta(milliseconds=1) for q in t[:]]]
            rec.check(g == want, lambda: '%s saved with %s: the dates in the file (%s, %s) are %s, expected %s' % (k, w, t.units, t.calendar, g, want), 'cftime')
            raw = f.variables['v']
            rec.check(raw.dimensions == (a.name,) and ref.same(np.asarray(raw[:]), ref.data((len(a),)) + .5, 0, 0), lambda: '%s saved with %s: raw values %s %s' % (k, w, raw.dimensions, raw[:]), 'raw')

def extreme(dt):
    t = np.dtype(dt)
    if t.kind in 'iu': i = np.iinfo(t); return [i.min, i.max, 0, 1]
    i = np.finfo(t); return [i.min, i.max, np.nan, np.inf, -np.inf, i.tiny, -0.]

def dtype(case, rec):
    _, dt, n = case
    t = np.dtype(dt).newbyteorder('=')
    x = extreme(dt)
    for name in ('plain', 'extreme'):
        v, d = mk(LAYS[n], dt)
        if name == 'extreme':
            d = np.resize(np.array(x, t), d.shape).astype(dt)
            v, d = mk(LAYS[n], dt, d=d)
        for w in W:
            if w[1] == '3' and dt in ('int64', 'uint64') and name == 'extreme': continue     # no such numbers in netCDF-3
            for r in R: cycle(rec, '%s %s %s' % (dt, LAYS[n], name), 'dtype', [(v, d.astype(t))], w, r)

def atts(case, rec):
    x = ATTS[case[1]]
    import pygeode as pyg
    for w in W:
        if case[1] == 'slist4' and w not in ('p4', 'pz'): continue       # lists of text only exist in netCDF-4
        for r in R:
            for name in ('note', 'Note_2', 'long_name'):
                if name == 'long_name' and not isinstance(x, str): continue
                a = pyg.Lon([1., 2.], atts={name: x}); t = pyg.StandardTime([1., 2.], units='days', startdate=dict(year=2000, month=1, day=1), atts={name: x})
                b = pyg.NamedAxis([1., 2.], 'foo', atts={name: x}) if name != 'long_name' else pyg.NamedAxis([1., 2.], 'foo')
                v = ref.var((t, b, a), ref.data((2, 2, 2)) + .5, atts={name: x, 'other': 'q'})
                cycle(rec, 'attribute %s = %r' % (name, x), 'atts:' + case[1], [(v, ref.data((2, 2, 2)) + .5)], w, r, atts={name: x, 'other': 'q'})

def sels(n, tier):
    out = [slice(None), 0, n-1, slice(1, None), slice(None, None, -1), slice(None, None, 2), [0], [n-1, 0], [0, 0, n-1]]
    if tier == 'thorough': out += [-1, slice(-1, 0, -2), list(range(n))[::-1], slice(0, 1), [n//2]]
    return out

def read(case, rec):
    _, n, w, tier = case
    v, d = mk(LAYS[n])
    nd = d.ndim
    p = save(w, v)
    for r in R:
        ds = opn(r, p); x = ds.v
        S = [sels(k, tier) for k in d.shape]
        if nd > 3: S = [s[:: 1 if i in (0, nd-1) else 3] for i, s in enumerate(S)]
        if nd > 4: S = [s[::2] for s in S]
        for sl in itertools.product(*S):
            e = d
            for i in range(nd)[::-1]: e = e[(slice(None),)*i + (sl[i],)]
            g, err = ref.attempt(lambda: x[sl] if nd != 1 else x[(sl[0],)]); rec.step()
            rec.check(err is None and ref.same(g, e, 0, 0), lambda: ref.diffmsg('%s saved with %s, opened with %s, read at %s %r' % (LAYS[n], w, r, sl, err), g, e), 'read')
        # by coordinates, and lazily through an operation
        for i, a in enumerate(x.axes):
            for k in range(len(a)):
                kw = {a.name: a.values[k]} if a.name != 'time' else {'i_time': k}
                g, err = ref.attempt(lambda: (x(**kw)*2).get()); rec.step()
                e = np.expand_dims(np.take(d, k, axis=i), i)*2
                rec.check(err is None and ref.same(np.ravel(g), np.ravel(e), 0, 0), lambda: ref.diffmsg('%s saved with %s, opened with %s, at %s %r' % (LAYS[n], w, r, kw, err), g, e), 'read')
        rec.state(n, w, r)

def dset(case, rec):
    vs, at = SETS()[case[1]]()
    for w in W:
        for r in R: cycle(rec, case[1], 'set', vs, w, r, at)

def unlim(case, rec):
    vs, at = SETS()[case[1]]()
    names = {a.name for v, d in vs for a in v.axes}
    for nm in names:
        if nm == 'dum' and 0: continue
        for w in W:
            if w[1] == '3' and any(nm in [a.name for a in v.axes][1:] for v, d in vs): continue
            for r in R:
                cycle(rec, case[1], 'unlim', vs, w, r, at, unlimited=nm)

def lim(case, rec):
    _, k, tier = case
    for m in (1, 2, 3, 4, 5, 7, 12, 24) if tier == 'quick' else range(1, 61):
        vs, at = SETS()[k]()
        with ref.chunks(m):
            for w in W:
                for r in R:
                    cycle(rec, '%s, at most %d values in memory' % (k, m), 'lim', vs, w, r, at)

def hist(case, rec):
    import pygeode as pyg
    _, k, w0, tier = case
    vs, at = SETS()[k]()
    def go(ds, what, v3, depth):
        for w in W:
            p, err = ref.attempt(lambda: save(w, ds)); rec.step()
            if not rec.check(err is None, lambda: '%s, then %s: %r' % (what, w, err), 'hist'): continue
            for r in R:
                e, err = ref.attempt(lambda: opn(r, p)); rec.step()
                if not rec.check(err is None, lambda: '%s, then %s %s: %r' % (what, w, r, err), 'hist'): continue
                same_ds(rec, '%s, then %s %s' % (what, w, r), 'hist', vs, e, v3 or w[1] == '3')
                same_atts(rec, what, at, e.atts, 'hist:gatts', ('Conventions', 'featureType'))
                if depth > 1: go(e, '%s, then %s %s' % (what, w, r), v3 or w[1] == '3', depth-1)
    p = save(w0, pyg.Dataset([v for v, d in vs], atts=at))
    for r in R: go(opn(r, p), '%s: %s %s' % (k, w0, r), w0[1] == '3', 2 if tier == 'thorough' else 1)

def groups(case, rec):
    import pygeode as pyg
    A, B = [SETS()[k]() for k in case[1]]
    for w in ('p4', 'pz'):
        for un in (None, 'lon', 'lat'):
            if un and not all(any(un in [a.name for a in v.axes] for v, d in S[0]) for S in (A, B)): continue
            obj = {'ga': pyg.Dataset([v for v, d in A[0]], atts=A[1]), 'gb': pyg.Dataset([v for v, d in B[0]], atts=B[1])}
            p, err = ref.attempt(lambda: save(w, obj, unlimited=un)); rec.step()
            if not rec.check(err is None, lambda: 'groups %s: %r' % (case[1], err), 'groups'): continue
            g, err = ref.attempt(lambda: opn('p', p)); rec.step()
            if not rec.check(err is None and isinstance(g, dict) and sorted(g) == ['ga', 'gb'], lambda: 'groups %s: %r %s' % (case[1], err, g), 'groups'): continue
            for nm, S in (('ga', A), ('gb', B)):
                same_ds(rec, 'group %s of %s saved with %s, unlimited %s' % (nm, case[1], w, un), 'groups', S[0], g[nm])
                same_atts(rec, nm, S[1], g[nm].atts, 'groups:gatts', ('Conventions', 'featureType'))

def units(case, rec):
    """units given to the variable itself"""
    for u in ('K', 'm s^-1', ''):
        for w in W:
            for r in R:
                v, d = mk(('lat', 'lon')); v.units = u
                cycle2(rec, v, d, u, w, r)

def cycle2(rec, v, d, u, w, r):
    p = save(w, v); ds = opn(r, p); rec.step()
    rec.check(ds.v.units == u, lambda: 'units %r saved with %s, opened with %s are %r' % (u, w, r, ds.v.units), 'units')

def single(case, rec):
    """what can be saved: a variable, a list, a dataset; with pygeode.save by file extension"""
    import pygeode as pyg
    v, d = mk(('time', 'lat')); v2, d2 = mk(('lat',), name='u', salt=1)
    for obj, want in ((v, [(v, d)]), ([v, v2], [(v, d), (v2, d2)]), ((v2, v), [(v2, d2), (v, d)]), (pyg.Dataset([v2, v]), [(v2, d2), (v, d)])):
        p = path()
        _, err = ref.attempt(lambda: pyg.save(p, obj)); rec.step()
        if not rec.check(err is None, lambda: 'save %r: %r' % (obj, err), 'single'): continue
        ds, err = ref.attempt(lambda: pyg.open(p)); rec.step()
        if rec.check(err is None, lambda: 'open %r: %r' % (obj, err), 'single'): same_ds(rec, 'pygeode.save', 'single', want, ds)
        for fm in ('netcdf', 'netcdf4'):
            for kw in (dict(version=3), dict(version=4), dict(compress=True), {}):
                p = path(); _, err = ref.attempt(lambda: pyg.save(p, obj, format=fm, **kw)); rec.step()
                if not rec.check(err is None, lambda: 'save %r %s: %r' % (obj, fm, err), 'single'): continue
                for fo in ('netcdf', 'netcdf4'):
                    ds, err = ref.attempt(lambda: pyg.open(p, format=fo)); rec.step()
                    if rec.check(err is None, lambda: 'open %r: %r' % (obj, err), 'single'): same_ds(rec, 'pygeode.save %s %s' % (fm, kw), 'single', want, ds, fm == 'netcdf' and not kw or kw.get('version') == 3)

def opts(case, rec):
    import pygeode as pyg
    vs, at = SETS()[case[1]]()
    names = [v.name for v, d in vs]
    for w in ('c3', 'p4'):
        p = save(w, pyg.Dataset([v for v, d in vs], atts=at))
        for r in R:
            for n in range(1, len(names)+1):
                for c in itertools.permutations(names, n):
                    ds, err = ref.attempt(lambda: opn(r, p, varlist=list(c))); rec.step()
                    what = '%s opened by %s with varlist %s' % (case[1], r, c)
                    if rec.check(err is None, lambda: '%s: %r' % (what, err), 'varlist'): same_ds(rec, what, 'varlist', [[x for x in vs if x[0].name == q][0] for q in c], ds, w[1] == '3')
            # rename variables and axes
            axn = sorted({a.name for v, d in vs for a in v.axes})
            for x in names + axn:
                ds, err = ref.attempt(lambda: opn(r, p, namemap={x: 'renamed'})); rec.step()
                what = '%s opened by %s, %s renamed' % (case[1], r, x)
                if not rec.check(err is None, lambda: '%s: %r' % (what, err), 'namemap'): continue
                nm = lambda q: 'renamed' if q == x else q
                ok = [q.name for q in ds.vars] == [nm(q) for q in names] and all([a.name for a in q.axes] == [nm(a.name) for a in v.axes] for q, (v, d) in zip(ds.vars, vs))
                rec.check(ok, lambda: '%s: %s' % (what, ds), 'namemap')
                for q, (v, d) in zip(ds.vars, vs): rec.check(ref.same(q.get(), d, 0, 0), lambda: ref.diffmsg(what, q.get(), d), 'namemap')
            # the class of an axis, given as class, class and arguments, or instance
            for x in axn:
                a = [a for v, d in vs for a in v.axes if a.name == x][0]
                ins = pyg.YAxis(np.arange(len(a)) + 100., name='inst')
                for dt, exp, vals in ((pyg.ZAxis, pyg.ZAxis, None), ((pyg.XAxis, dict(values=np.arange(len(a))*3.)), pyg.XAxis, np.arange(len(a))*3.), (ins, pyg.YAxis, ins.values)):
                    if x in ('station', 'dum') and vals is None: continue
                    ds, err = ref.attempt(lambda: opn(r, p, dimtypes={x: dt})); rec.step()
                    what = '%s opened by %s, dimtypes %s: %r' % (case[1], r, x, dt)
                    if x == 'station': continue
                    if not rec.check(err is None, lambda: '%s: %r' % (what, err), 'dimtypes'): continue
                    for v, d in vs:
                        if not rec.check(v.name in ds.vardict, lambda: '%s: no variable %s' % (what, v.name), 'dimtypes'): continue
                        q = ds[v.name]
                        rec.check(ref.same(q.get(), d, 0, 0), lambda: ref.diffmsg(what, q.get(), d), 'dimtypes')
                        for b, c in zip(v.axes, q.axes):
                            if b.name == x:
                                rec.check(isinstance(c, exp) and (vals is None and (a.name[:4] == 'time' or ref.same(c.values, a.values)) or vals is not None and ref.same(c.values, vals)), lambda: '%s: axis %r' % (what, c), 'dimtypes')
                            else: same_axis(rec, what, b, c, 'dimtypes', w[1] == '3')
            # replaced values
            for v, d in vs:
                if not d.ndim: continue
                new = d*0 + 7
                ds, err = ref.attempt(lambda: opn(r, p, value_override={v.name: new})); rec.step()
                what = '%s opened by %s with the values of %s replaced' % (case[1], r, v.name)
                if not rec.check(err is None, lambda: '%s: %r' % (what, err), 'override'): continue
                for q, e in vs: rec.check(q.name in ds.vardict and ref.same(ds[q.name].get(), new if q.name == v.name else e, 0, 0), lambda: '%s: %s is %s' % (what, q.name, ds[q.name].get() if q.name in ds else 'gone'), 'override')

def clash(case, rec):
    """stations with a latitude next to a latitude axis"""
    import pygeode as pyg
    st = pyg.axis.Station(station=np.array(['aa', 'b', 'ccc']), lat=np.array([10., 20.5, -30.]))
    vs = [mk(('lat', 'lon')), (ref.var((st,), ref.data((3,)), name='obs'), ref.data((3,)))]
    for w in W:
        for r in R: cycle(rec, 'latitude axis and stations with latitudes', 'clash', vs, w, r)
