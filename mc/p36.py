"""P36: ensembles keep members separate and in order."""
import itertools
import numpy as np
from . import ref

BOUND = {
 'quick': '1 to 4 members; 9 layouts of up to 3 axes (scalar members, generic, time, descending and unordered axes); 6 types and every pair of different types; 3 storage protocols; memory limits of 1 to 24 values; every permutation of the members; every selection of members (integers, slices, lists, by value) with 7 selections of every other axis; '
          '11 statistics over the members; arithmetic with members, means and other ensembles; 1 to 3 datasets of 1 to 3 variables in every order; every pair and triple of 12 attribute values; inconsistent members',
 'thorough': 'the same with 1 to 5 members, memory limits of 1 to 60 values and twice the selections'}

DT = ['float64', 'float32', 'int32', 'int8', 'complex128', 'bool']
CL = {'s': (), 'lat': ('lat',), 'latlon': ('lat', 'lon'), 'lonlat': ('lon', 'lat'), 'time': ('time', 'lat'), 'foo': ('foo',), 'three': ('pres', 'time', 'lon'), 'one': ('one', 'lat'), 'st': ('st', 'lon')}

def ax():
    import pygeode as pyg
    return dict(lat=pyg.Lat([60., 20., -35.]), lon=pyg.Lon([0., 90., 180., 270.]), foo=pyg.NamedAxis([3., 1., 2.], 'foo'), pres=pyg.Pres([850., 100.]), one=pyg.NamedAxis([7.], 'one'),
                time=pyg.StandardTime([0., 1., 31.], units='days', startdate=dict(year=2000, month=1, day=30)), st=pyg.axis.Station(station=np.array(['a', 'bb', 'c'])))

def data(shape, i, dt):
    d = np.asarray(ref.data(shape, salt=i)) % 101
    if dt == 'bool': return (d % 2 == (i % 2))
    d = d.astype(dt)
    return d + 1j*(i+1) if dt == 'complex128' else d

def members(lay, n, dts='float64', store='getview', axs=None, names=None, atts=None):
    if isinstance(dts, str): dts = [dts]*n
    out = []
    for i in range(n):
        A = axs or ax()
        t = [A[k] for k in CL[lay]]
        d = data([len(a) for a in t], i, dts[i])
        out.append((ref.var(t, d, store, name='v' if names is None else names[i], atts=dict(atts[i]) if atts else {}), d))
    return out

def cases(tier):
    out = []
    N = 6 if tier == 'thorough' else 5
    for lay in CL:
        for n in range(1, N):
            out += [['read', lay, n, tier], ['stat', lay, n], ['order', lay, n], ['arith', lay, n]]
            for m in (1, 2, 3, 5, 8, 24) if tier == 'quick' else (1, 2, 3, 4, 5, 6, 7, 8, 12, 24, 36, 60): out.append(['lim', lay, n, m])
        out += [['types', lay], ['dset', lay]]
    out += [['atts'], ['wrong'], ['nested'], ['axis']]
    return out

def run(case, rec):
    import warnings; warnings.simplefilter('ignore')
    with np.errstate(all='ignore'): globals()[case[0]](case, rec)

def ens(rec, what, key, *a):
    import pygeode as pyg
    e, err = ref.attempt(lambda: pyg.ensemble(*a)); rec.step()
    return e if rec.check(err is None, lambda: '%s: %r' % (what, err), key) else None

def shape_ok(rec, what, key, e, ms):
    v0 = ms[0][0]
    ok = rec.check(e.shape == (len(ms),) + v0.shape and [a.name for a in e.axes] == ['ensemble'] + [a.name for a in v0.axes] and ref.same(e.axes[0].values, np.arange(len(ms))), lambda: '%s: axes %r' % (what, e.axes), key)
    return ok and rec.check(e.name == v0.name and all(a == b for a, b in zip(e.axes[1:], v0.axes)), lambda: '%s: %r' % (what, e), key)

def tsels(n, tier):
    out = [slice(None), slice(None, None, -1), slice(None, None, 2), slice(1, None)] + list(range(n)) + [[i] for i in range(n)]
    out += [list(p) for p in itertools.permutations(range(n), 2)] + [[0, 0], [n-1, 0, n-1]]
    if tier == 'thorough': out += [list(p) for p in itertools.permutations(range(n), 3)] + [slice(i, j) for i in range(n) for j in range(i+1, n+1)]
    return out

def cut(d, sl):
    for i in range(d.ndim)[::-1]: d = d[(slice(None),)*i + (sl[i],)]
    return d

def read(case, rec):
    _, lay, n, tier = case
    for store in ref.STORES:
        ms = members(lay, n, store=store); D = np.array([d for v, d in ms])
        what = '%d members %s stored as %s' % (n, lay, store)
        e = ens(rec, what, 'read', *[v for v, d in ms])
        if e is None or not shape_ok(rec, what, 'read', e, ms): continue
        g, err = ref.attempt(lambda: e.get()); rec.step()
        rec.check(err is None and ref.same(g, D, 0, 0) and g.dtype == D.dtype, lambda: ref.diffmsg('%s %r' % (what, err), g, D), 'read')
        oth = [[slice(None), 0, slice(None, None, -1), [k-1], [k-1, 0], slice(0, 1), [0, 0]][: 7 if len(CL[lay]) < 3 else 5] for k in D.shape[1:]]
        for s in tsels(n, tier):
            for o in itertools.product(*oth):
                sl = (s,) + o; x = cut(D, sl)
                g, err = ref.attempt(lambda: e[sl]); rec.step()
                rec.check(err is None and ref.same(g, x, 0, 0), lambda: ref.diffmsg('%s at %s: %r' % (what, sl, err), g, x), 'read')
                if store == 'getview' and not any(isinstance(q, int) for q in sl):
                    g, err = ref.attempt(lambda: e.slice[sl].get()); rec.step()
                    rec.check(err is None and ref.same(g, x, 0, 0), lambda: ref.diffmsg('%s sliced at %s: %r' % (what, sl, err), g, x), 'slice')
            rec.state(what, s)
        for i in range(n):
            for kw in (dict(ensemble=i), dict(i_ensemble=i), dict(l_ensemble=[i]), dict(si_ensemble=i)):
                g, err = ref.attempt(lambda: e(**kw)); rec.step()
                if not rec.check(err is None, lambda: '%s %s: %r' % (what, kw, err), 'select'): continue
                rec.check(ref.same(np.ravel(g.get()), np.ravel(D[i]), 0, 0) and [a.name for a in g.axes if a.name != 'ensemble'] == list(a.name for a in ms[0][0].axes), lambda: ref.diffmsg('%s %s' % (what, kw), g.get(), D[i]), 'select')
            for a, b in ((0, i), (i, n-1)):
                g, err = ref.attempt(lambda: e(ensemble=(a, b)).get()); rec.step()
                rec.check(err is None and ref.same(g, D[a:b+1], 0, 0), lambda: ref.diffmsg('%s ensemble=(%d, %d): %r' % (what, a, b, err), g, D[a:b+1]), 'select')
        for j, a in enumerate(e.axes[1:]):
            for k in range(len(a)):
                if a.name == 'station': continue
                kw = {a.name: a.values[k]} if a.name != 'time' else dict(i_time=k)
                g, err = ref.attempt(lambda: e(**kw).get()); rec.step(); x = np.take(D, [k], axis=j+1)
                rec.check(err is None and ref.same(np.ravel(g), np.ravel(x), 0, 0), lambda: ref.diffmsg('%s %s: %r' % (what, kw, err), g, x), 'select')

STAT = dict(mean=lambda d: d.mean(0), sum=lambda d: d.sum(0), min=lambda d: d.min(0), max=lambda d: d.max(0), stdev=lambda d: d.std(0, ddof=1), variance=lambda d: d.var(0, ddof=1),
            nanmean=lambda d: np.nanmean(d, 0), nansum=lambda d: np.nansum(d, 0), nanmin=lambda d: np.nanmin(d, 0), nanmax=lambda d: np.nanmax(d, 0), nanstdev=lambda d: np.nanstd(d, 0, ddof=1))

def value(x): return np.asarray(x.get() if hasattr(x, 'get') else x)

def stat(case, rec):
    _, lay, n = case
    for gap in (False, True):
        ms = members(lay, n)
        if gap:
            ms = [(ref.var(v.axes, np.where(d % 5 == i, np.nan, d), 'getview', name='v'), np.where(d % 5 == i, np.nan, d)) for i, (v, d) in enumerate(ms)]
        D = np.array([d for v, d in ms])
        e = ens(rec, lay, 'stat', *[v for v, d in ms])
        if e is None: continue
        for k, f in STAT.items():
            if k in ('stdev', 'variance', 'nanstdev') and n == 1: continue
            if k == 'nanstdev' and gap: continue          # members left may be fewer than two: see the check of reductions
            for m in (2, 5, 1000):
                with ref.chunks(m): g, err = ref.attempt(lambda: value(getattr(e, k)('ensemble'))); rec.step()
                x = f(D)
                if k in ('nanmin', 'nanmax') and np.isnan(D).all(0).any(): continue
                if k == 'nansum': x = np.where(np.isnan(D).all(0), np.nan, x) if err is None and np.isnan(g).any() else x
                rec.check(err is None and ref.same(g, x, 1e-9, 1e-9), lambda: ref.diffmsg('%s of %d members %s%s, limit %d: %r' % (k, n, lay, ' with gaps' if gap else '', m, err), g, x), 'stat')
            for a in CL[lay]:
                nm = ax()[a].name; j = CL[lay].index(a) + 1
                if k not in ('mean', 'sum', 'min', 'max') or gap: continue
                g, err = ref.attempt(lambda: getattr(e, k)(nm, weights=False).get() if k in ('mean', 'sum') else getattr(e, k)(nm).get()); rec.step()
                x = getattr(np, k)(D, axis=j)
                rec.check(err is None and ref.same(g, x, 1e-9, 1e-9), lambda: ref.diffmsg('%s along %s of %d members %s: %r' % (k, nm, n, lay, err), g, x), 'stat')
            rec.state(lay, n, k, gap)

def order(case, rec):
    """members in the order given"""
    _, lay, n = case
    ms = members(lay, n)
    for p in itertools.product(range(n), repeat=n) if n < 4 else itertools.permutations(range(n)):
        D = np.array([ms[i][1] for i in p])
        e = ens(rec, 'members %s %s' % (lay, p), 'order', *[ms[i][0] for i in p])
        if e is None: continue
        g, err = ref.attempt(lambda: e.get()); rec.step()
        rec.check(err is None and ref.same(g, D, 0, 0), lambda: ref.diffmsg('members %s %s: %r' % (lay, p, err), g, D), 'order')
        for i in range(n):
            g = e[(i,) + (slice(None),)*len(CL[lay])]
            rec.check(ref.same(g, D[i], 0, 0), lambda: ref.diffmsg('members %s %s at %d' % (lay, p, i), g, D[i]), 'order')
        rec.state(lay, p)

def arith(case, rec):
    _, lay, n = case
    ms = members(lay, n); D = np.array([d for v, d in ms]); o = members(lay, n, 'float32'); E = np.array([d for v, d in o])[::-1]
    e = ens(rec, lay, 'arith', *[v for v, d in ms]); f = ens(rec, lay, 'arith', *[v for v, d in o][::-1])
    if e is None or f is None: return
    m = D.mean(0)
    T = dict(plus=(lambda: e + f, D + E), times=(lambda: e*f*2, D*E*2), mean=(lambda: e - e.mean('ensemble'), D - m), member=(lambda: e - ms[-1][0], D - ms[-1][1]), left=(lambda: ms[0][0]*e, ms[0][1]*D), sq=(lambda: (e**2).sum('ensemble'), (D**2).sum(0)),
             sort=(lambda: e.sorted('ensemble') if 0 else e.sorted(ensemble=-1), D[::-1]))
    for k, (fn, x) in T.items():
        if k == 'sq' and lay == 's': continue
        g, err = ref.attempt(fn); rec.step()
        if not rec.check(err is None, lambda: '%s of %d members %s: %r' % (k, n, lay, err), 'arith'): continue
        if k in ('plus', 'times', 'mean', 'member', 'left', 'sort'):
            want = sorted(['ensemble'] + [a.name for a in ms[0][0].axes])
            if not rec.check(sorted(a.name for a in g.axes) == want, lambda: '%s of %d members %s: axes %r' % (k, n, lay, g.axes), 'arith'): continue
            g = g.transpose('ensemble', *[a.name for a in ms[0][0].axes])
        g, err = ref.attempt(lambda: g.get())
        rec.check(err is None and ref.same(g, x, 1e-6, 1e-6), lambda: ref.diffmsg('%s of %d members %s %r' % (k, n, lay, err), g, x), 'arith')
        rec.state(lay, n, k)

def lim(case, rec):
    import pygeode as pyg
    _, lay, n, m = case
    ms = members(lay, n); D = np.array([d for v, d in ms])
    with ref.chunks(m):
        e = ens(rec, lay, 'lim', *[v for v, d in ms])
        if e is None: return
        for k, fn, x in (('sum', lambda: e.sum('ensemble') + 0, D.sum(0)), ('all', lambda: e.sum(*[a.name for a in e.axes]), D.sum()), ('neg', lambda: -e, -D), ('load', lambda: e.load(pbar=False), D)):
            g, err = ref.attempt(lambda: np.asarray(fn().get() if hasattr(fn(), 'get') else fn())); rec.step()
            rec.check(err is None and ref.same(np.ravel(g), np.ravel(x), 1e-9, 1e-9), lambda: ref.diffmsg('%s of %d members %s, limit %d: %r' % (k, n, lay, m, err), g, x), 'lim')
            rec.state(lay, n, m, k)

def types(case, rec):
    """members of different types: a type that holds all of them"""
    lay = case[1]
    for n in (1, 2, 3):
        for dts in itertools.product(DT, repeat=n) if n < 3 else [p for p in itertools.permutations(DT, 3)]:
            ms = members(lay, n, list(dts)); D = np.array([d for v, d in ms])
            e = ens(rec, dts, 'types', *[v for v, d in ms])
            if e is None: continue
            key = 'types' if len(set(dts)) == 1 else 'types:mixed'
            g, err = ref.attempt(lambda: e.get()); rec.step()
            rec.check(err is None and ref.same(g, D, 0, 0) and g.dtype == e.dtype, lambda: ref.diffmsg('members of types %s, %s announced: %r' % (dts, e.dtype, err), g, D), key)
            g, err = ref.attempt(lambda: (e*1).get()); rec.step()
            rec.check(err is None and ref.same(g, D*1, 0, 0), lambda: ref.diffmsg('members of types %s: %r' % (dts, err), g, D), key)
            for i in range(n):
                g, err = ref.attempt(lambda: e[(slice(i, None),)]); rec.step()
                rec.check(err is None and ref.same(g, D[i:], 0, 0) and g.dtype == e.dtype, lambda: ref.diffmsg('members of types %s from %d, %s announced: %r' % (dts, i, e.dtype, err), g, D[i:]), key)
            rec.state(lay, dts)

def dset(case, rec):
    import pygeode as pyg
    lay = case[1]
    A = ax()
    for n in (1, 2, 3):
        for names in (['v'], ['v', 'u'], ['b', 'a', 'c']):
            for perm in itertools.product(itertools.permutations(names), repeat=n-1):
                sets = []; D = {}
                for i in range(n):
                    vs = {}
                    for j, nm in enumerate(names):
                        t = [A[k] for k in CL[lay]][: len(CL[lay]) if j != 1 else 1]
                        d = data([len(a) for a in t], i*5 + j, 'float64'); D[nm, i] = d
                        vs[nm] = ref.var(t, d, 'getview', name=nm)
                    o = names if i == 0 else perm[i-1]
                    sets.append(pyg.Dataset([vs[k] for k in o], atts=dict(title='abc', member=i)))
                what = '%d datasets %s of %s' % (n, lay, [names] + list(perm))
                e = ens(rec, what, 'dset', *sets)
                if e is None: continue
                if not rec.check(isinstance(e, pyg.Dataset) and [v.name for v in e.vars] == names, lambda: '%s: %r' % (what, e), 'dset'): continue
                rec.check(e.atts == (dict(title='abc', member=0) if n == 1 else dict(title='abc')), lambda: '%s: attributes %s' % (what, e.atts), 'dset:atts')
                for nm in names:
                    x = np.array([D[nm, i] for i in range(n)]); g, err = ref.attempt(lambda: e[nm].get()); rec.step()
                    rec.check(err is None and ref.same(g, x, 0, 0), lambda: ref.diffmsg('%s: %s %r' % (what, nm, err), g, x), 'dset')
                # as lists
                l = ens(rec, what, 'dset', *[list(s.vars) for s in sets])
                if l is not None:
                    rec.check(isinstance(l, list) and [v.name for v in l] == names and all(ref.same(v.get(), np.array([D[v.name, i] for i in range(n)]), 0, 0) for v in l), lambda: '%s as lists: %r' % (what, l), 'dset')
                g, err = ref.attempt(lambda: e(i_ensemble=n-1)); rec.step()
                rec.check(err is None and all(ref.same(np.ravel(g[nm].get()), np.ravel(D[nm, n-1]), 0, 0) for nm in names), lambda: '%s, last member: %r' % (what, err), 'dset')
                rec.state(what)

VALS = [1, 2, 1., 'a', 'b', '', np.array([1, 2]), np.array([1, 3]), np.array([1, 2, 3]), [1, 2], None, np.array([[1, 2], [3, 4]])]

def eq(a, b):
    if isinstance(a, str) or isinstance(b, str) or a is None or b is None: return type(a) == type(b) and a == b
    a, b = np.asarray(a), np.asarray(b)
    return a.shape == b.shape and bool((a == b).all())

def atts(case, rec):
    """attributes on which all members agree"""
    import pygeode as pyg
    for n in (1, 2, 3):
        for c in itertools.product(range(len(VALS)), repeat=n):
            for gap in [None] + list(range(n)):
                at = [dict(q=VALS[i], r=5) for i in c]
                if gap is not None: del at[gap]['q']
                ms = members('lat', n, atts=at)
                what = 'members with attributes %s' % at
                e = ens(rec, what, 'atts', *[v for v, d in ms])
                if e is None: continue
                keep = gap is None and all(eq(VALS[i], VALS[c[0]]) for i in c)
                rec.check(set(e.atts) == ({'q', 'r'} if keep else {'r'}) and (not keep or eq(e.atts['q'], VALS[c[0]])), lambda: '%s: the ensemble has %s' % (what, e.atts), 'atts')
                if n < 3:
                    f = ens(rec, what, 'atts:glob', *[pyg.Dataset([v], atts=a) for (v, d), a in zip(ms, at)])
                    if f is not None: rec.check(set(f.atts) == ({'q', 'r'} if keep else {'r'}), lambda: '%s: the dataset has %s' % (what, f.atts), 'atts:glob')
                rec.state(c, gap)

def wrong(case, rec):
    """members that don't match are refused"""
    import pygeode as pyg
    A = ax()
    v = ref.var([A['lat'], A['lon']], ref.data((3, 4)), name='v')
    bad = dict(name=v.rename('w'), order=v.transpose('lon', 'lat'), part=v.slice[1:, :], grid=v.replace_axes(lat=pyg.Lat([1., 2., 3.])), kind=v.replace_axes(lat=pyg.Pres([60., 20., 35.])), fewer=v.mean('lon').rename('v'), rev=v.slice[::-1, :],
               time=v.replace_axes(lat=pyg.StandardTime([1., 2., 3.], units='days', startdate=dict(year=2000))), more=pyg.Dataset([v, v.rename('w')]), sta=v.replace_axes(lat=pyg.axis.Station(station=np.array(['a', 'b', 'c']))))
    for k, w in bad.items():
        for c in ((v, w), (w, v), (v, v, w), (v, w, v)):
            e, err = ref.attempt(lambda: pyg.ensemble(*c)); rec.step()
            rec.check(err is not None, lambda: 'members that differ (%s): %r' % (k, e), 'wrong')
            rec.state(k)
    # same dates counted from another day, or in another unit; stations with other names
    t = [pyg.StandardTime([31., 32.], units='days', startdate=dict(year=2000, month=1, day=1)), pyg.StandardTime([0., 24.], units='hours', startdate=dict(year=2000, month=2, day=1)), pyg.StandardTime([31., 32.], units='days', startdate=dict(year=2001, month=1, day=1))]
    for i, j in itertools.product(range(3), repeat=2):
        x, y = [pyg.Var([t[q]], values=np.array([1., 2.]) + q, name='v') for q in (i, j)]
        e, err = ref.attempt(lambda: pyg.ensemble(x, y).get()); rec.step()
        if (i == 2) == (j == 2): rec.check(err is None and ref.same(e, [[1. + i, 2. + i], [1. + j, 2. + j]]), lambda: 'time axes %d and %d: %r %s' % (i, j, err, e), 'wrong:time')
        else: rec.check(err is not None, lambda: 'different dates: %s' % e, 'wrong:time')
    s = [pyg.axis.Station(station=np.array(k)) for k in (['a', 'b'], ['b', 'a'])]
    e, err = ref.attempt(lambda: pyg.ensemble(*[pyg.Var([q], values=np.array([1., 2.]), name='v') for q in s])); rec.step()
    rec.check(err is not None, lambda: 'different stations: %r' % e, 'wrong:station')

def nested(case, rec):
    """ensembles can be saved, concatenated and put together like other variables"""
    import pygeode as pyg
    for n in (1, 2, 3):
        for lay in ('lat', 'time', 'three'):
            ms = members(lay, n); D = np.array([d for v, d in ms])
            e = ens(rec, lay, 'nested', *[v for v, d in ms])
            if e is None: continue
            for k, fn, x in (('squeeze', lambda: e.squeeze(), D[0] if n == 1 else D), ('replace', lambda: e.replace_axes(ensemble=pyg.NamedAxis(np.arange(n)*10., 'member')), D), ('transpose', lambda: e.transpose(*[a.name for a in e.axes][::-1]), D.T),
                             ('concat', lambda: pyg.concat.concat(e.slice[:1], e.slice[1:]) if n > 1 else e, D), ('extend', lambda: e.extend(0, pyg.NamedAxis([1., 2.], 'r')), np.array([D, D]))):
                g, err = ref.attempt(lambda: fn().get()); rec.step()
                rec.check(err is None and ref.same(g, x, 0, 0), lambda: ref.diffmsg('%s of %d members %s: %r' % (k, n, lay, err), g, x), 'nested')
                rec.state(k, n, lay)

def axis(case, rec):
    """ensembles made at different times are on the same axis; other indices are different"""
    import pygeode as pyg
    for n in range(1, 4):
        for m in range(1, 4):
            a = pyg.ensemble(*[v for v, d in members('lat', n)]); b = pyg.ensemble(*[v for v, d in members('lat', m)]); rec.step()
            rec.check((a.axes[0] == b.axes[0]) == (n == m), lambda: 'ensemble axes of %d and %d members: %s' % (n, m, a.axes[0] == b.axes[0]), 'axis')
            s, err = ref.attempt(lambda: (a + b).get()); rec.step()
            k = min(n, m); D = np.array([d for v, d in members('lat', k)])
            rec.check(err is not None if 0 else err is not None or ref.same(s, 2*D), lambda: 'sum of %d and %d members: %r %s' % (n, m, err, s), 'axis')
            rec.state(n, m)
