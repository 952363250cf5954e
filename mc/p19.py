"""P19: CF metadata is decoded to the axes and values the convention defines."""
import itertools
import numpy as np
from . import ref, p18

BOUND = {'quick': '19 spellings of 4 time units with 7 calendars, 19 forms of the reference date, 4 ways to identify a time axis, 7 values each, against cftime; every combination of 7 standard names, 4 long names, 5 axis letters, 17 units and 7 names of a dimension that is not contradictory, decoded and encoded again; '
      '182 axes encoded; auxiliary arrays and station data referred to in 24 ways; packed data of 6 types in 3 shapes with 7 scales, 6 offsets, 5 fill values and 5 missing values, under two names or in arrays, read whole and in parts; files written with netCDF4 alone in 5 to 10 types with 5 packings, '
      'read by both interfaces with 64 selections; 13 fields in 3 types packed by both interfaces in every format, for every choice of variables, and read by pygeode and by netCDF4',
 'thorough': 'the same'}

NORTH = ('degrees_north', 'degree_north', 'degree_N', 'degrees_N', 'degreeN', 'degreesN')
EAST = ('degrees_east', 'degree_east', 'degree_E', 'degrees_E', 'degreeE', 'degreesE')
WORDS = {'days': 'days', 'day': 'days', 'd': 'days', 'hours': 'hours', 'hour': 'hours', 'hr': 'hours', 'hrs': 'hours', 'h': 'hours', 'minutes': 'minutes', 'minute': 'minutes', 'min': 'minutes', 'mins': 'minutes',
         'seconds': 'seconds', 'second': 'seconds', 'sec': 'seconds', 'secs': 'seconds', 's': 'seconds', 'Days': 'days', 'HOURS': 'hours'}
CALS = {None: 'StandardTime', 'standard': 'StandardTime', 'gregorian': 'StandardTime', 'proleptic_gregorian': 'StandardTime', '365_day': 'ModelTime365', 'noleap': 'ModelTime365', '360_day': 'ModelTime360'}
DATES = ['2000-01-01', '2000-1-1', '1999-12-31 18:00', '1999-12-31 18:30:15', '1999-12-30T18:30:15', '1999-12-30 18:30:15.0', '2000-02-28 00:00:00', '1850-1-1 0:0:0', '2000-01-01 00:00:00 UTC', '1999-12-30T06:00:00Z', '1999-12-30 6:00:00', '1900-01-01 00:00:0.0',
         '1999-12-30 18:30:15 +00:00', '1999-12-30 18:30:15 -06:00', '1999-12-30 18:30:15 +05:30', '1999-12-30T18:30:15+01:00', '1999-12-30 18:30 -06:00', '0001-01-01 00:00:00', '1-1-1']
NAMES = ('time', 't', 'q')

def cases(tier):
    out = []
    for w in WORDS:
        for c in CALS: out.append(['time', w, c])
    for n in ('lat', 'latitude', 'y', 'q', 'lon', 'lev', 'time'): out.append(['space', n])
    out += [['encode'], ['nocal'], ['aux']]
    for dt in ('int8', 'int16', 'int32', 'uint8', 'float32', 'float64'):
        for lay in range(3): out.append(['packed', dt, lay])
    out += [['files', w] for w in ('p3', 'p4')]
    for k in FIELDS():
        for dt in ('float32', 'float64', 'int32'): out.append(['pack', k, dt])
    return out

def run(case, rec):
    import warnings; warnings.simplefilter('ignore')
    try:
        with np.errstate(all='ignore'): globals()[case[0]](case, rec)
    finally: p18.clean()

def gen(name, vals, atts):
    """a dataset as a file reader provides it: one dimension called `name` with these attributes"""
    import pygeode as pyg
    a = pyg.NamedAxis(np.array(vals), name, atts=dict(atts))
    return pyg.Dataset([pyg.Var((a,), values=np.arange(len(vals))*1., name='v')])

def decode(name, vals, atts):
    from pygeode.formats import cfmeta
    ds = cfmeta.decode_cf(gen(name, vals, atts))
    return ds.v.axes[0]

F = ('year', 'month', 'day', 'hour', 'minute', 'second')
def time(case, rec):
    import cftime, datetime
    _, w, c = case
    vals = [0., 1., 31., 59., 400., 86400., -1.] if WORDS[w] == 'seconds' else [0., .5, 31., 60., 366., 1000.25, -1.]
    for d in DATES:
        if CALS[c] == 'ModelTime360' and '-31' in d: continue     # not a date of that calendar
        u = '%s since %s' % (w, d)
        for how in ('name', 'standard_name', 'axis', 'units'):
            name = {'name': 'time', 'standard_name': 't', 'axis': 't', 'units': 'q'}[how]
            at = dict(units=u, note='abc')
            if how == 'standard_name': at['standard_name'] = 'time'
            if how == 'axis': at['axis'] = 'T'
            if c: at['calendar'] = c
            try:
                x = [q + datetime.timedelta(milliseconds=1) for q in cftime.num2date(np.array(vals), u, 'proleptic_gregorian' if CALS[c] == 'StandardTime' else c)]
            except Exception as e: raise
            want = [tuple(getattr(q, f) for f in F) for q in x]
            if any(y[0] < 1 for y in want): vv, want = vals[:-1], want[:-1]
            else: vv = vals
            a, err = ref.attempt(lambda: decode(name, vv, at)); rec.step()
            key = 'time:%s' % ('zone' if any(z in d for z in ('+0', '-06')) else 'short' if w in ('d', 'h', 'hr', 'hrs', 'min', 'mins', 's', 'sec', 'secs') else how)
            if not rec.check(err is None, lambda: '%s with %s: %r' % (name, at, err), key): continue
            if not rec.check(type(a).__name__ == CALS[c], lambda: '%s with %s is decoded as %r' % (name, at, a), key): continue
            got = [tuple(int(a.auxarrays[f][i]) for f in F) for i in range(len(a))]
            rec.check(got == want, lambda: '%s with %s at %s: dates %s, expected %s' % (name, at, vv, got, want), key)
            rec.check(a.units == WORDS[w] and a.name == name, lambda: '%s with %s: units %s, name %s' % (name, at, a.units, a.name), key)
            rec.check(a.atts.get('note') == 'abc', lambda: '%s with %s: attributes %s' % (name, at, a.atts), key)
            rec.state(got)

def expect(name, at):
    """the class of an axis according to its attributes; attributes before names"""
    sn = at.get('standard_name', at.get('long_name', name)).lower(); u = at.get('units', '')
    if sn == 'latitude' or u in NORTH: return 'Lat'
    if sn == 'longitude' or u in EAST: return 'Lon'
    if sn == 'air_pressure' or u in ('hPa', 'mbar'): return 'Pres'
    return {'X': 'XAxis', 'Y': 'YAxis', 'Z': 'ZAxis', 'T': 'TAxis'}.get(at.get('axis'), 'NamedAxis')

def space(case, rec):
    """every combination of the attributes that identify an axis"""
    name = case[1]
    vals = [10., 20., 35.]
    for sn in (None, 'latitude', 'longitude', 'air_pressure', 'depth', 'Latitude', 'projection_x_coordinate'):
        for ln in (None, 'latitude', 'Longitude', 'something else'):
            for ax in (None, 'X', 'Y', 'Z', 'T'):
                for u in (None, 'm', 'hPa', 'mbar', '1') + NORTH + EAST:
                    at = {k: x for k, x in (('standard_name', sn), ('long_name', ln), ('axis', ax), ('units', u), ('note', 'abc')) if x is not None}
                    # contradictory descriptions are not specified
                    kinds = {expect('q', {k: at[k]}) for k in at if k != 'axis'} | {expect(name, {})}
                    kinds -= {'NamedAxis'}
                    if len(kinds) > 1: continue
                    fam = {'Lat': 'Y', 'Lon': 'X', 'Pres': 'Z'}.get(list(kinds)[0] if kinds else None)
                    if ax and fam and ax != fam: continue
                    if sn and expect('q', dict(standard_name=sn)) == 'NamedAxis' and fam: continue
                    want = expect(name, at)
                    a, err = ref.attempt(lambda: decode(name, vals, at)); rec.step()
                    if not rec.check(err is None, lambda: '%s with %s: %r' % (name, at, err), 'space'): continue
                    key = 'space:units' if u in NORTH[1:] + EAST[1:] else 'space'
                    rec.check(type(a).__name__ == want, lambda: '%s with %s is decoded as %s, expected %s' % (name, at, type(a).__name__, want), key)
                    rec.check(a.name == name and ref.same(a.values, vals, 0, 0) and a.atts.get('note') == 'abc', lambda: '%s with %s: %r %s' % (name, at, a, a.atts), key)
                    if want in ('NamedAxis', 'XAxis', 'YAxis', 'ZAxis', 'TAxis'): rec.check(a.atts.get('units') == u, lambda: '%s with %s: attributes %s' % (name, at, a.atts), key)
                    rec.state(want, name)
                    back(rec, name, at, a)
    # coordinates in other units keep them when saved
    for sn, u in (('air_pressure', 'Pa'), ('air_pressure', 'kPa'), ('air_pressure', 'hPa'), ('latitude', 'radians'), ('longitude', 'radians'), ('latitude', 'degrees_north')):
        at = dict(standard_name=sn, units=u)
        if name in ('lat', 'lon', 'q', 'lev'):
            a, err = ref.attempt(lambda: decode(name, vals, at)); rec.step()
            if rec.check(err is None, lambda: '%s with %s: %r' % (name, at, err), 'space:other'): back(rec, name, at, a, 'space:other')

def header(ds):
    """the attributes written for the axis of variable v"""
    from pygeode.formats import cfmeta
    e = cfmeta.encode_cf(ds)
    return e.v.axes[0]

def back(rec, name, at, a, key='space:back'):
    import pygeode as pyg
    ds = pyg.Dataset([pyg.Var((a,), values=np.arange(len(a))*1., name='v')])
    b, err = ref.attempt(lambda: header(ds)); rec.step()
    if not rec.check(err is None, lambda: '%s with %s, encoded: %r' % (name, at, err), key): return
    for k, x in at.items():
        g = b.atts.get(k)
        if k == 'standard_name': g = (g or '').lower(); x = x.lower()
        if k == 'units':
            for fam in (NORTH, EAST, ('hPa', 'mbar')):
                if x in fam: x = fam[0]
        rec.check(g == x, lambda: '%s with %s, encoded again: %s' % (name, at, b.atts), key)

def encode(case, rec):
    """the attributes the convention prescribes for every class"""
    import pygeode as pyg
    X = {'XAxis': dict(axis='X'), 'YAxis': dict(axis='Y'), 'ZAxis': dict(axis='Z'), 'TAxis': dict(axis='T'), 'Lat': dict(axis='Y', standard_name='latitude', units='degrees_north'), 'Lon': dict(axis='X', standard_name='longitude', units='degrees_east'),
         'Pres': dict(axis='Z', standard_name='air_pressure', units='hPa', positive='down'), 'Hybrid': dict(axis='Z', standard_name='atmosphere_hybrid_sigma_pressure_coordinate'), 'NamedAxis': {}}
    for k in p18.AX():
        a = p18.AX()[k](); n = type(a).__name__
        ds = pyg.Dataset([pyg.Var((a,), values=np.arange(len(a))*1., name='v')], atts=dict(title='abc'))
        b, err = ref.attempt(lambda: header(ds)); rec.step()
        if not rec.check(err is None, lambda: '%s: %r' % (k, err), 'encode'): continue
        if n in X: want = X[n]
        elif n in ('StandardTime', 'ModelTime365', 'ModelTime360', 'Yearless'):
            s = dict(dict(year=0, month=1, day=1, hour=0, minute=0, second=0), **a.startdate)
            want = dict(axis='T', standard_name='time', calendar={'StandardTime': 'standard', 'ModelTime365': '365_day', 'ModelTime360': '360_day', 'Yearless': 'none'}[n],
                        units='%s since %04d-%02d-%02d %02d:%02d:%02d' % tuple([a.units] + [s[f] for f in F]))
        else: continue
        for q in want: rec.check(b.atts.get(q) == want[q], lambda: '%s: %s is %r, expected %r' % (k, q, b.atts.get(q), want[q]), 'encode')
        for q in a.atts:
            if q not in want: rec.check(b.atts.get(q) == a.atts[q], lambda: '%s: %s is %r, expected %r' % (k, q, b.atts.get(q), a.atts[q]), 'encode')
        rec.check(ref.same(b.values, a.values, 1e-9, 1e-9), lambda: ref.diffmsg(k, b.values, a.values), 'encode')
        rec.state(k, sorted(want.items()))

def nocal(case, rec):
    """calendars pygeode doesn't have are left alone"""
    for c in ('julian', '366_day', 'all_leap', 'foo'):
        a, err = ref.attempt(lambda: decode('time', [0., 1.], dict(units='days since 2000-01-01', calendar=c))); rec.step()
        rec.check(err is None and 'Time' not in type(a).__name__ and ref.same(a.values, [0., 1.]), lambda: 'calendar %s: %r %r' % (c, err, a), 'nocal')

    for w in ('months', 'years', 'weeks', 'fortnights', 'common_years'):
        for at in (dict(standard_name='time'), dict(axis='T'), {}):
            u = w + ' since 2000-01-01'
            a, err = ref.attempt(lambda: decode('time', [0., 1.], dict(at, units=u))); rec.step()
            rec.check(err is None and 'Time' not in type(a).__name__ and ref.same(a.values, [0., 1.]) and a.atts.get('units') == u, lambda: 'units %s: %r %r' % (u, err, a), 'nounits')

def aux(case, rec):
    """arrays that belong to an axis, however they are referred to"""
    import pygeode as pyg
    from pygeode.formats import cfmeta
    from pygeode.axis import DummyAxis
    for anc in ('q_A q_B', 'A B', 'A', 'q_A'):
        for sn in (None, 'atmosphere_hybrid_sigma_pressure_coordinate', 'latitude'):
            at = dict(ancillary_variables=anc)
            if sn: at['standard_name'] = sn
            a = pyg.NamedAxis([.2, .5, .9], 'q', atts=at)
            names = anc.split()
            extra = [pyg.Var((a,), values=np.array([3., 1., 2.])*(i+1), name=n) for i, n in enumerate(names)]
            for other in ([], [pyg.Var((a,), values=np.array([7., 8., 9.]), name='C')]):
                ds = pyg.Dataset([pyg.Var((a,), values=np.arange(3.), name='v')] + extra + other)
                e, err = ref.attempt(lambda: cfmeta.decode_cf(ds)); rec.step()
                if not rec.check(err is None, lambda: '%s: %r' % (at, err), 'aux'): continue
                b = e.v.axes[0]; short = [n[2:] if n[:2] == 'q_' else n for n in names]
                cls = 'Lat' if sn == 'latitude' else 'Hybrid' if sn and len(names) == 2 else 'NamedAxis'
                rec.check(type(b).__name__ == cls and set(b.auxarrays) - {'weights'} == set(short) and all(ref.same(b.auxarrays[n], np.array([3., 1., 2.])*(i+1)) for i, n in enumerate(short)), lambda: '%s: %r %s' % (at, b, b.auxarrays), 'aux')
                rec.check([v.name for v in e.vars] == ['v'] + [v.name for v in other], lambda: '%s: variables %s' % (at, [v.name for v in e.vars]), 'aux')
    # stations
    for how in ('coordinates', 'ancillary_variables'):
        for nm in ('station', 'obs'):
            for cn in ('lat lon', 'lat', 'lat lon alt name2'):
                a = DummyAxis(3, name=nm); t = pyg.NamedAxis([0., 1.], 'time', atts=dict(units='days since 2000-01-01'))
                extra = [pyg.Var((a,), values=np.array([3., 1., 2.])*(i+1), name=n) for i, n in enumerate(cn.split())] + [pyg.Var((t, a), values=np.zeros((2, 3)), name='alt2')]
                v = pyg.Var((t, a), values=np.arange(6.).reshape(2, 3), name='v', atts={how: cn + ' alt2'})
                e, err = ref.attempt(lambda: cfmeta.decode_cf(pyg.Dataset([v] + extra))); rec.step()
                if not rec.check(err is None, lambda: '%s=%s: %r' % (how, cn, err), 'station'): continue
                b = e.v.axes[1]
                rec.check(type(b).__name__ == {'station': 'Station', 'obs': 'NonCoordinateAxis'}[nm] and set(b.auxarrays) == set(cn.split()) and all(ref.same(b.auxarrays[n], np.array([3., 1., 2.])*(i+1)) for i, n in enumerate(cn.split())), lambda: '%s=%s: %r %s' % (how, cn, b, b.auxarrays), 'station')
                rec.check(sorted(x.name for x in e.vars) == ['alt2', 'v'] and type(e.alt2.axes[1]) is type(b), lambda: '%s=%s: variables %s' % (how, cn, e), 'station')

# ---- packed values --------------------------------------------------------------------------------
def packing(dt):
    """combinations of scale, offset and fill values (None: attribute missing)"""
    t = np.dtype(dt).type
    if t(0).dtype.kind in 'iu':
        i = np.iinfo(dt); fills = [None, t(0), t(i.max), t(i.min), t(5)]
    else: fills = [None, t(0), t(-999), t(1e20), t(np.nan)]
    sc = [None, .5, np.float32(.01), 1, -2., np.float64(1e-3), np.int16(3)]
    of = [None, 0., 10., np.float32(-273.15), 300, np.float64(1e5)]
    for s, o in itertools.product(sc, of):
        for f, m in itertools.product(fills, fills):
            yield s, o, f, m

def packed(case, rec):
    import pygeode as pyg
    from pygeode.formats import cfmeta
    _, dt, lay = case
    t = np.dtype(dt).type
    shape = ((6,), (2, 3), (3, 2, 2))[lay]
    base = np.resize(np.array([0, 1, 5, 100, 7, 2], dt), shape)
    axs = [pyg.Lon([0., 90., 180., 200., 250., 300.]), pyg.Lat([10., 20., 30.]), pyg.Pres([100., 50.])]
    axs = {6: [axs[0]]}.get(shape[0], [pyg.NamedAxis(np.arange(n)*1., 'd%d' % i) for i, n in enumerate(shape)])
    for s, o, f, m in packing(dt):
        for fn in ('_FillValue', 'FillValue'):
            if fn == 'FillValue' and (f is None or m is not None): continue
            for arr in (False, True):
                if arr and m is None: continue
                at = dict(long_name='abc', units='K')
                if s is not None: at['scale_factor'] = s
                if o is not None: at['add_offset'] = o
                if f is not None: at[fn] = f
                if m is not None: at['missing_value'] = np.array([m, t(100)], dt) if arr else m
                d = base.copy()
                bad = np.zeros(shape, bool)
                for x in (f, m, t(100) if arr else None):
                    if x is None: continue
                    if x == x and x not in (0, 5): d.flat[1] = x
                for x in (f, m, t(100) if arr else None):
                    if x is not None: bad |= (d == x)
                e = d.astype('float64')*(1 if s is None else float(s)) + (0 if o is None else float(o))
                e = np.where(bad, np.nan, e)
                v = ref.var(axs, d, 'getvalues', name='v', atts=at)
                w, err = ref.attempt(lambda: cfmeta.decode_cf(pyg.Dataset([v])).v); rec.step()
                key = 'packed' + (':both' if f is not None and m is not None and not arr else '') + (':array' if arr else '') + (':zero' if f == 0 or m == 0 else '')
                if not rec.check(err is None, lambda: '%s %s: %r' % (dt, at, err), key): continue
                g, err = ref.attempt(lambda: np.asarray(w.get())); rec.step()
                # to the precision of the data or of the attributes, whichever is greater
                prec = 1e-12 if dt == 'float64' or any(isinstance(x, float) for x in (s, o)) else 3e-7
                if err is None and any(isinstance(x, float) for x in (s, o)) and prec < 3e-7 and g.dtype == 'float32' : key += ':precision'
                tol = prec*max(1, np.nanmax(np.abs(e)) if not bad.all() else 1, abs(float(o or 0)))
                rec.check(err is None and ref.same(g, e, 0, tol), lambda: ref.diffmsg('%s %s: %r, %s' % (dt, at, err, d), g, e), key)
                if err is None:
                    rec.check(g.dtype == w.dtype, lambda: '%s %s: dtype %s, announced %s' % (dt, at, g.dtype, w.dtype), key)
                    if s is None and o is None and f is None and m is None: rec.check(g.dtype == d.dtype, lambda: '%s %s: dtype %s' % (dt, at, g.dtype), key)
                    rec.check({k: w.atts[k] for k in w.atts} == dict(long_name='abc', units='K') and w.units == 'K', lambda: '%s %s: attributes %s' % (dt, at, w.atts), key)
                    # read in parts
                    for sl in ((slice(None, None, -1),), ([1],), (slice(1, None),)):
                        g, err = ref.attempt(lambda: w[sl]); rec.step()
                        rec.check(err is None and ref.same(g, e[sl], 0, tol), lambda: ref.diffmsg('%s %s at %s: %r' % (dt, at, sl, err), g, e[sl]), key)
                rec.state(dt, e)

def files(case, rec):
    """files written without pygeode, opened with both interfaces"""
    import netCDF4, pygeode as pyg
    w = case[1]
    for dt in ('i1', 'i2', 'i4', 'f4', 'f8') + (('u1', 'u2', 'u4', 'i8', 'u8') if w == 'p4' else ()):
        for s, o, fill in ((None, None, None), (.5, 10., 7), (2., None, 3), (None, 5., None), (None, None, 7)):
            p = p18.path()
            with netCDF4.Dataset(p, 'w', format='NETCDF4' if w == 'p4' else 'NETCDF3_CLASSIC') as f:
                f.createDimension('lat', 3); f.createDimension('time', None); f.createDimension('k', 2)
                la = f.createVariable('lat', 'f4', ('lat',)); la.units = 'degrees_north'; la[:] = [10., 20., 30.]
                t = f.createVariable('time', 'i4', ('time',)); t.units = 'hours since 2000-02-28 06:00:00'; t.calendar = 'noleap'; t[:] = [0, 18, 42]
                v = f.createVariable('v', dt, ('time', 'k', 'lat'), fill_value=None if fill is None else np.dtype(dt).type(fill))
                v.set_auto_maskandscale(False)
                if s is not None: v.scale_factor = s
                if o is not None: v.add_offset = o
                v.units = 'K'; v.long_name = u'abc'
                raw = (np.arange(18) % 9).reshape(3, 2, 3).astype(dt); v[:] = raw
                sc = f.createVariable('sc', 'f8', ()); sc[...] = 4.5
                f.title = 'x'
            e = raw*(1. if s is None else s) + (0 if o is None else o)
            if fill is not None: e = np.where(raw == fill, np.nan, e)
            for r in p18.R:
                what = '%s %s scale %s offset %s fill %s opened with %s' % (w, dt, s, o, fill, r)
                ds, err = ref.attempt(lambda: p18.opn(r, p)); rec.step()
                if not rec.check(err is None, lambda: '%s: %r' % (what, err), 'files'): continue
                x = ds.v
                rec.check([type(a).__name__ for a in x.axes][::2] == ['ModelTime365', 'Lat'] and [a.name for a in x.axes] == ['time', 'k', 'lat'] and isinstance(x.axes[1], pyg.axis.DummyAxis), lambda: '%s: %r' % (what, x.axes), 'files')
                rec.check([(int(x.time.month[i]), int(x.time.day[i]), int(x.time.hour[i])) for i in range(3)] == [(2, 28, 6), (3, 1, 0), (3, 2, 0)], lambda: '%s: %r' % (what, x.time), 'files')
                g, err = ref.attempt(lambda: x.get()); rec.step()
                rec.check(err is None and ref.same(g, e, 1e-6, 1e-6), lambda: ref.diffmsg('%s: %r' % (what, err), g, e), 'files')
                rec.check(ref.same(ds.sc.get(), 4.5) and ds.atts.get('title') == 'x' and x.units == 'K' and x.atts == dict(units='K', long_name='abc'), lambda: '%s: %s %s' % (what, ds.atts, x.atts), 'files')
                for sl in itertools.product((slice(None), [1, 0], slice(None, None, -1), 1), repeat=3):
                    q = e
                    for i in (2, 1, 0): q = q[(slice(None),)*i + (sl[i],)]
                    g, err = ref.attempt(lambda: x[sl]); rec.step()
                    rec.check(err is None and ref.same(g, q, 1e-6, 1e-6), lambda: ref.diffmsg('%s at %s: %r' % (what, sl, err), g, q), 'files')
                rec.state(what)

def FIELDS():
    f = {}
    r = ref.data((4, 3)) % 97
    f['plain'] = r*1.
    f['neg'] = r*1. - 50
    f['scaled'] = r*1e-6 - 3e-5
    f['big'] = r*1e6
    f['offset'] = r*.5 + 1e5
    f['constant'] = r*0. + 7.5
    f['zero'] = r*0.
    f['two'] = (r % 2)*1.
    f['fine'] = np.linspace(-1, 1, 12).reshape(4, 3)
    f['gap'] = np.where(r % 3 == 0, np.nan, r*1.)
    f['constgap'] = np.where(r % 3 == 0, np.nan, 7.5)
    f['allgap'] = r*np.nan
    f['asym'] = np.where(r > 90, 1e4, r*.01)
    return f

def pack(case, rec):
    import pygeode as pyg
    _, k, dt = case
    d = FIELDS()[k]
    if dt == 'int32':
        if np.isnan(d).any(): return
        d = np.round(d)
    d = d.astype(dt)
    fin = d[np.isfinite(d)].astype(float)
    step = (fin.max() - fin.min())/65534. if len(fin) else 0
    eps = np.finfo(dt).eps if dt[0] == 'f' else 1e-7
    tol = step*1.0001 + 4*eps*max(np.abs(fin).max() if len(fin) else 0, 1e-30)
    u = ref.data((3,)) + .123456789
    for w in p18.W:
        for r in p18.R:
            for how in (True, ['v'], ('u', 'v'), ['u']):
                la = pyg.Lat([10., 20., 30., 40.]); lo = pyg.Lon([0., 90., 180.])
                v = ref.var((la, lo), d, 'getview', name='v', atts=dict(note='abc', units='K')); x = ref.var((lo,), u, name='u')
                what = '%s %s saved with %s pack=%s, opened with %s' % (k, dt, w, how, r)
                p, err = ref.attempt(lambda: p18.save(w, [v, x], pack=how)); rec.step()
                if not rec.check(err is None, lambda: '%s: %r' % (what, err), 'pack'): continue
                ds, err = ref.attempt(lambda: p18.opn(r, p)); rec.step()
                if not rec.check(err is None, lambda: '%s: %r' % (what, err), 'pack'): continue
                g = ds.v.get()
                t = tol if how is True or 'v' in how else 0
                rec.check(ref.same(g, d, 0, t), lambda: ref.diffmsg('%s, tolerance %g' % (what, t), g, d), 'pack')
                g = ds.u.get()
                rec.check(ref.same(g, u, 0, (u.max()-u.min())/65534*1.0001 if how is True or 'u' in how else 0), lambda: ref.diffmsg(what, g, u), 'pack')
                rec.check(v.atts == dict(note='abc', units='K') and ds.v.atts.get('note') == 'abc' and ds.v.units == 'K', lambda: '%s: attributes %s, now %s' % (what, ds.v.atts, v.atts), 'pack')
                if how is True:
                    import netCDF4
                    with netCDF4.Dataset(p) as f:
                        rec.check(f.variables['v'].dtype == np.int16, lambda: '%s: stored as %s' % (what, f.variables['v'].dtype), 'pack')
                        g = np.ma.filled(np.ma.asarray(f.variables['v'][:], dtype=float), np.nan)
                        rec.check(ref.same(g, d, 0, t), lambda: ref.diffmsg('%s, read with netCDF4' % what, g, d), 'pack:raw')
                rec.state(k, dt, w, r)
