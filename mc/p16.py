"""P16: structural operations keep every value with its coordinates."""
import itertools
import numpy as np
from . import ref

BOUND = {
 'quick': 'every sequence of up to 2 (from two of the variables 3) of 97 structural operations (all transpositions by name, class and position, squeeze, extend at every position, sorted in each direction, replacement of axes by class, object and list, '
          'renaming, fill, unfill, casts) on 11 variables (empty axes, orders, repeated coordinates, auxiliary arrays, missing values, integer data, 3 storage protocols), states merged by content; every state also read through a reversed '
          'strided selection; unfill on 8 dtypes x fill values given in 5 types',
 'thorough': 'every sequence of up to 4 operations'}

class A:
    __slots__ = ('cls', 'name', 'vals', 'aux', 'atts')
    def __init__(s, cls, name, vals, aux, atts): s.cls = cls; s.name = name; s.vals = vals; s.aux = aux; s.atts = atts
    def take(s, p): return A(s.cls, s.name, [s.vals[i] for i in p], None if s.aux is None else {k: [v[i] for i in p] for k, v in s.aux.items()}, s.atts)
    def key(s): return (s.cls, s.name, tuple(s.vals), None if s.aux is None else tuple(sorted((k, tuple(v)) for k, v in s.aux.items())))

def amodel(a): return A(type(a).__name__, a.name, np.asarray(a.values).tolist(), {k: np.asarray(v).tolist() for k, v in a.auxarrays.items()}, dict(a.atts))

class M:
    def __init__(s, name, axes, arr): s.name = name; s.axes = axes; s.arr = np.asarray(arr)
    def key(s): return (s.name, tuple(a.key() for a in s.axes), s.arr.dtype.str, s.arr.tobytes())

def start(k):
    import pygeode as pyg
    nan = np.nan
    axes, d, store = [
        ([pyg.Lat([10., -20., 30.], atts={'q': 1}), pyg.Lon([90., 0.])], np.array([[1., nan], [3., -999.], [nan, 6.]]), 'mem'),
        ([pyg.Pres([500.]), pyg.Lat([3., 1.]), pyg.Lon([0., 10., 5.])], np.arange(6.).reshape(1, 2, 3)*11, 'getview'),
        ([pyg.StandardTime(np.array([5., 2., 9.]), units='days', startdate=dict(year=2001, month=1, day=30)), pyg.Pres([10., 500., 30.])], np.arange(9.).reshape(3, 3) + 3, 'getvalues'),
        ([pyg.NamedAxis([2., 1., 2., 1.], 'q', w=np.array([5., 6., 7., 8.])), pyg.Lat([5.])], np.array([[1.], [2.], [3.], [nan]]), 'mem'),
        ([pyg.axis.Station(station=np.array(['c', 'a', 'b'])), pyg.Lon([20., 10.])], np.arange(6).reshape(3, 2).astype('int32'), 'getview'),
        ([pyg.Pres([7.]), pyg.Lon([3.])], np.array([[-999.]], 'float32'), 'mem'),
        ([pyg.Hybrid([1., 2., 3.], A=np.array([3., 1., 2.]), B=np.array([.1, .2, .3])), pyg.Lat([40., 20., 50.])], np.array([[1, -999, 3], [4, 5, 6], [7, 8, 9]], 'int16'), 'getvalues'),
        ([], np.array(4.5), 'mem'),
        ([pyg.Lon([1., 2.]), pyg.Lat([5., 1.]), pyg.Pres([5.]), pyg.NamedAxis([1., 2.], 'q')], np.arange(8.).reshape(2, 2, 1, 2) - 999, 'getview'),
        ([pyg.Lat([1., 5.]), pyg.NamedAxis(np.zeros(0), 'q'), pyg.Lon([5.])], np.zeros((2, 0, 1)), 'getview'),
        ([pyg.Pres(np.zeros(0)), pyg.Lat([4., 2.])], np.zeros((0, 2)), 'mem')][k]
    v = ref.var(axes, d, store, name='v', atts={'title': 't', 'n': 3})
    v.units = 'K'; v.plotatts['plottitle'] = 'pt'
    return v, M('v', [amodel(a) for a in v.axes], d)
NSTART = 11

ALIAS = {'Lat': ('lat', 'yaxis'), 'YAxis': ('yaxis',), 'Lon': ('lon', 'xaxis'), 'XAxis': ('xaxis',), 'Pres': ('pres', 'zaxis'), 'Hybrid': ('hybrid', 'zaxis'), 'ZAxis': ('zaxis',), 'Station': ('station',), 'NamedAxis': (),
         'StandardTime': ('time', 'standardtime')}
CLASSES = {'lat': ('Lat', 'YAxis'), 'lon': ('Lon', 'XAxis'), 'pres': ('Pres', 'ZAxis'), 'time': ('StandardTime', 'CalendarTime', 'Time', 'TAxis'), 'station': ('Station',), 'hybrid': ('Hybrid',), 'xaxis': ('XAxis', 'Lon'), 'yaxis': ('YAxis', 'Lat'), 'zaxis': ('ZAxis', 'Pres', 'Hybrid')}
FAMILY = {'Lat': 'y', 'YAxis': 'y', 'Lon': 'x', 'XAxis': 'x', 'Pres': 'z', 'Hybrid': 'z', 'ZAxis': 'z', 'StandardTime': 't', 'Station': 's', 'NamedAxis': None}

def find(m, id):
    """position of the axis an identifier names, in the model: name, or family of the class"""
    if isinstance(id, int): return id if 0 <= id < len(m.axes) else None
    for i, a in enumerate(m.axes):
        if a.name == id or id in ALIAS[a.cls]: return i
    return None

def ops(tier):
    """(label, function Var -> Var, function M -> M, None: must be refused, or 0: not claimed)"""
    import pygeode as pyg
    out = []
    def o(label, f, m): out.append((label, f, m))
    T = lambda m, p: M(m.name, [m.axes[i] for i in p], m.arr.transpose(p))
    # transpose
    for ids in (('lat',), ('lon',), ('pres',), ('q',), ('time',), ('station',), ('lon', 'lat'), ('pres', 'lon'), ('q', 'lat'), ('lat', 'z9'), (0,), (1,), (2, 0), (1, 0, 2), (3,), ('lon', 0), ('nosuch',)):
        def tm(m, ids=ids):
            p = [find(m, i) for i in ids]
            if any(i is None for i in p): return None
            if len(set(p)) < len(p): return 0
            return T(m, p + [i for i in range(len(m.axes)) if i not in p])
        o('transpose%s' % (ids,), lambda v, ids=ids: v.transpose(*ids), tm)
    def tc(m):
        p = [i for i, a in enumerate(m.axes) if FAMILY.get(a.cls) == 'x']
        return T(m, p + [i for i in range(len(m.axes)) if i not in p]) if p else None
    o('transpose(XAxis)', lambda v: v.transpose(pyg.XAxis), tc)
    # squeeze
    def sq(m, which):
        keep = [i for i, a in enumerate(m.axes) if not (len(a.vals) == 1 and (which is None or i in which))]
        return M(m.name, [m.axes[i] for i in keep], m.arr.reshape([m.arr.shape[i] for i in keep]))
    o('squeeze()', lambda v: v.squeeze(), lambda m: sq(m, None))
    for ids in (('pres',), ('lat',), (0,), (1,), ('pres', 'lon'), ('q',)):
        def sm(m, ids=ids):
            p = [find(m, i) for i in ids]
            return None if any(i is None for i in p) else sq(m, p)
        o('squeeze%s' % (ids,), lambda v, ids=ids: v.squeeze(*ids), sm)
        if len(ids) == 2: o('squeeze[%s]' % (ids,), lambda v, ids=ids: v.squeeze(list(ids)), sm)
    def sv(m, name, x):
        i = find(m, name)
        if i is None: return None
        if not m.axes[i].vals: return 0
        a = np.abs(np.array(m.axes[i].vals) - x)
        p = [int(np.argmin(a))]
        return sq(M(m.name, m.axes[:i] + m.axes[i+1:], m.arr.take(p[0], axis=i)), None)      # no axes listed: all degenerate ones go as well
    for n, x in (('lat', 5.), ('lon', 8.), ('pres', 400.)):
        o('squeeze(%s=%s)' % (n, x), lambda v, n=n, x=x: v.squeeze(**{n: x}), lambda m, n=n, x=x: sv(m, n, x))
    # extend
    def ex(m, pos, new):
        new = [amodel(a) for a in new]
        if any(FAMILY.get(b.cls) is not None and FAMILY.get(a.cls) == FAMILY.get(b.cls) or a.name == b.name for a in m.axes for b in new): return 0
        if pos > len(m.axes): return 0
        p = pos if pos >= 0 else max(0, len(m.axes) + pos)
        arr = m.arr.reshape(m.arr.shape[:p] + (1,)*len(new) + m.arr.shape[p:])
        axes = m.axes[:p] + new + m.axes[p:]
        return M(m.name, axes, np.array(np.broadcast_to(arr, [len(a.vals) for a in axes])))
    P = pyg.Pres([9., 1.]); R = pyg.NamedAxis([4., 6.], 'r'); S = pyg.Lat([8.])
    for pos, new, lst in ((0, [P], 0), (1, [P], 0), (2, [R], 0), (-1, [R], 0), (0, [R, P], 0), (1, [P, R], 1), (0, [S], 0), (1, [S, R], 1)):
        o('extend(%d,%s)' % (pos, [a.name for a in new]), (lambda v, pos=pos, new=new: v.extend(pos, new)) if lst else (lambda v, pos=pos, new=new: v.extend(pos, *new)), lambda m, pos=pos, new=new: ex(m, pos, new))
    # sorted
    ORDER = {'Pres': -1, 'Hybrid': -1}
    def so(m, order):
        axes, arr = list(m.axes), m.arr
        for i, d in order.items():
            d = d or ORDER.get(axes[i].cls, 1)
            if len(set(axes[i].vals)) < len(axes[i].vals) and not (axes[i].aux or {}).get('w'): return 0      # order of ties could not be told
            p = np.argsort(np.array(axes[i].vals), kind='stable')
            if d < 0: p = p[::-1]
            axes[i] = axes[i].take(p); arr = arr.take(p, axis=i)
        return M(m.name, axes, arr)
    o('sorted()', lambda v: v.sorted(), lambda m: so(m, {i: 0 for i in range(len(m.axes))}))
    for a in ('lat', 'pres', 'q', 0, 1):
        o('sorted(%s)' % a, lambda v, a=a: v.sorted(a), lambda m, a=a: None if find(m, a) is None else so(m, {find(m, a): 0}))
    for kw in (dict(lat=1), dict(lat=-1, lon=1), dict(pres=1), dict(q=-1), dict(time=-1), dict(lon=0), dict(lat=2)):
        def sk(m, kw=kw):
            p = {find(m, k): x for k, x in kw.items()}
            return None if None in p or 2 in kw.values() else so(m, p)
        o('sorted(%s)' % kw, lambda v, kw=kw: v.sorted(**kw), sk)
    # replace_axes
    def rep(m, d, keep=True, ignore=False):
        axes = list(m.axes)
        for k, new in d.items():
            i = find(m, k)
            if i is None:
                if ignore: continue
                return None
            if isinstance(new, str):      # a class: same coordinates
                if m.axes[i].cls in ('Station', 'StandardTime', 'Hybrid'): return 0
                if any(j != i and FAMILY.get(a.cls) == {'YAxis': 'y', 'XAxis': 'x', 'Lat': 'y', 'Lon': 'x', 'Pres': 'z', 'ZAxis': 'z'}[new] for j, a in enumerate(m.axes)): return 0
                axes[i] = A(new, m.axes[i].name if keep else {'ZAxis': 'lev'}.get(new, new.lower()), m.axes[i].vals, None, None)
            else:
                b = amodel(new)
                if len(b.vals) != len(m.axes[i].vals): return None
                if any(j != i and (FAMILY.get(a.cls) is not None and FAMILY.get(a.cls) == FAMILY.get(b.cls) or a.name == b.name) for j, a in enumerate(m.axes)): return 0
                axes[i] = b
        return M(m.name, axes, m.arr)
    for d in (dict(lat='YAxis'), dict(lon='XAxis', lat='YAxis'), dict(pres='ZAxis'), dict(q='Lat'), dict(nosuch='Lat')):
        C = {k: getattr(pyg, x) for k, x in d.items()}
        o('replace_axes(%s)' % d, lambda v, C=C: v.replace_axes(**C), lambda m, d=d: rep(m, d))
        o('replace_axes(%s,keep_old_name=False)' % d, lambda v, C=C: v.replace_axes(C, keep_old_name=False), lambda m, d=d: rep(m, d, keep=False))
        o('replace_axes(%s,ignore)' % d, lambda v, C=C: v.replace_axes(ignore_mismatch=True, **C), lambda m, d=d: rep(m, d, ignore=True))
    N = pyg.NamedAxis([8., 7.], 'n2'); W = pyg.Lat([70., 50., 60.]); L = pyg.Lon([5., 6.])
    for k, a in (('lat', N), ('lon', N), (0, N), (1, W), ('lat', W), ('lon', L), ('q', N), ('time', W)):
        o('replace_axes({%s: %s})' % (k, a.name), lambda v, k=k, a=a: v.replace_axes({k: a}, keep_old_name=False), lambda m, k=k, a=a: rep(m, {k: a}))
    def allnew(v): return v.replace_axes(newaxes=[pyg.NamedAxis(np.arange(len(a))*1. + 50, 'd%d' % i) for i, a in enumerate(v.axes)])
    o('replace_axes(newaxes)', allnew, lambda m: M(m.name, [A('NamedAxis', 'd%d' % i, [j + 50. for j in range(len(a.vals))], {}, {}) for i, a in enumerate(m.axes)], m.arr))
    # names
    def rn(m, d, ignore=False):
        if not ignore and any(find(m, k) is None for k in d): return None
        p = {find(m, k): n for k, n in d.items()}
        axes = [A(a.cls, p.get(i, a.name), a.vals, a.aux, a.atts) for i, a in enumerate(m.axes)]
        if len({a.name for a in axes}) < len(axes): return 0
        if any(b in CLASSES for b in d.values()): return 0
        return M(m.name, axes, m.arr)
    for d in (dict(lat='yy'), dict(lon='xx', lat='yy'), dict(pres='zz'), dict(q='r2', lat='q2'), dict(time='t2'), dict(station='st'), dict(yy='z9'), dict(nosuch='a')):
        o('rename_axes(%s)' % d, lambda v, d=d: v.rename_axes(**d), lambda m, d=d: rn(m, d))
        o('rename_axes(%s,ignore)' % d, lambda v, d=d: v.rename_axes(ignore_mismatch=True, axisdict=d), lambda m, d=d: rn(m, d, True))
    for n in ('w', ''): o('rename(%s)' % n, lambda v, n=n: v.rename(n), lambda m, n=n: M(n, m.axes, m.arr))
    # values
    def fill(m, x):
        a = m.arr.copy(); a[np.isnan(a)] = x; return M(m.name, m.axes, a)
    o('fill(-999)', lambda v: v.fill(-999), lambda m: fill(m, -999.))
    o('fill(0)', lambda v: v.fill(0), lambda m: fill(m, 0.))
    def unfill(m, x):
        a = m.arr.astype(m.arr.dtype if m.arr.dtype.kind == 'f' else 'float32'); a[m.arr == x] = np.nan; return M(m.name, m.axes, a)
    o('unfill(-999)', lambda v: v.unfill(-999), lambda m: unfill(m, -999))
    o('unfill(3)', lambda v: v.unfill(3.), lambda m: unfill(m, 3))
    for t in ('float32', 'float64', 'int32'):
        o('as_type(%s)' % t, lambda v, t=t: v.as_type(t), lambda m, t=t: 0 if t == 'int32' and np.isnan(m.arr).any() else M(m.name, m.axes, m.arr.astype(t)))
    return out

def compare(rec, label, v, m, sel=True):
    ok = rec.check([type(a).__name__ for a in v.axes] == [a.cls for a in m.axes], lambda: '%s: axes %s, expected %s' % (label, v.axes, [a.cls for a in m.axes]), 'axes')
    if not ok: return False
    ok &= rec.check([a.name for a in v.axes] == [a.name for a in m.axes], lambda: '%s: axes called %s, expected %s' % (label, [a.name for a in v.axes], [a.name for a in m.axes]), 'axisnames')
    for a, b in zip(v.axes, m.axes):
        if b.cls == 'Station' : pass    # no coordinates: values are only positions
        else: ok &= rec.check(np.asarray(a.values).tolist() == b.vals, lambda: '%s: axis %s %s, expected %s' % (label, a.name, a.values, b.vals), 'coords')
        if b.aux is not None: ok &= rec.check({k: np.asarray(x).tolist() for k, x in a.auxarrays.items()} == b.aux, lambda: '%s: axis %s auxiliary arrays %s, expected %s' % (label, a.name, a.auxarrays, b.aux), 'aux')
        if b.atts is not None: ok &= rec.check(dict(a.atts) == b.atts, lambda: '%s: axis %s attributes %s' % (label, a.name, a.atts), 'axisatts')
    ok &= rec.check(v.name == m.name and v.units == 'K' and v.atts == {'title': 't', 'n': 3} and v.plotatts.get('plottitle') == 'pt', lambda: '%s: metadata %r %r %s %s' % (label, v.name, v.units, v.atts, v.plotatts), 'meta')
    ok &= rec.check(v.dtype == m.arr.dtype, lambda: '%s: dtype %s, expected %s' % (label, v.dtype, m.arr.dtype), 'dtype')
    ok &= rec.check(v.shape == m.arr.shape, lambda: '%s: shape %s, expected %s' % (label, v.shape, m.arr.shape), 'shape')
    g, err = ref.attempt(lambda: v.get())
    ok &= rec.check(err is None and ref.same(g, m.arr, 0, 0, dtype=True), lambda: '%s: %r %s' % (label, err, ref.diffmsg('', g, m.arr)), 'values')
    if ok and sel and m.arr.ndim:
        s = tuple([slice(None, None, -1)] + [slice(1, None) if n > 1 else slice(None) for n in m.arr.shape[1:]])
        g, err = ref.attempt(lambda: v.slice[s].get())
        ok &= rec.check(err is None and ref.same(g, m.arr[s], 0, 0), lambda: '%s, then %s: %r %s' % (label, s, err, ref.diffmsg('', g, m.arr[s])), 'selection')
    return ok

def ties(v, m):
    """sorting does not say in which order equal coordinates come: take the order of the auxiliary array w, which is unique"""
    for i, a in enumerate(m.axes):
        if len(set(a.vals)) == len(a.vals) or not (a.aux or {}).get('w') or i >= v.naxes or 'w' not in v.axes[i].auxarrays: continue
        w = v.axes[i].auxarrays['w'].tolist()
        if sorted(w) == sorted(a.aux['w']):
            p = [a.aux['w'].index(x) for x in w]
            axes = list(m.axes); axes[i] = a.take(p)
            if axes[i].vals == a.vals: m = M(m.name, axes, m.arr.take(p, axis=i))
    return m

def cases(tier):
    n = len(ops_labels(tier))
    out = [['unfill', i] for i in range(8)] + [['keepname']] + [['seq', k, j, (3 if k in (3, 6) else 2) if tier == 'quick' else 4] for k in range(NSTART) for j in range(n)]
    return out

def ops_labels(tier):
    return range(125)

def run(case, rec):
    import warnings; warnings.simplefilter('ignore')
    import pygeode as pyg
    if case[0] == 'keepname':
        for store in ref.STORES:
            v = ref.var([pyg.Lat([1., 2.]), pyg.Lon([3.])], np.arange(2.).reshape(2, 1), store)
            for keep, want in ((None, 'lat'), (True, 'lat'), (False, 'n2')):
                r = v.replace_axes(lat=pyg.NamedAxis([8., 7.], 'n2'), **({} if keep is None else {'keep_old_name': keep})); rec.step()
                rec.check(r.axes[0].name == want, lambda: 'replace_axes(lat=<axis n2>, keep_old_name=%s) calls the axis %s' % (keep, r.axes[0].name), 'keep_old_name')
                rec.check(r.axes[0].values.tolist() == [8., 7.] and r.get().tolist() == [[0.], [1.]], lambda: 'replace_axes: %s' % r.get(), 'values')
        return
    if case[0] == 'unfill':
        dt = ['float32', 'float64', 'int8', 'int16', 'int32', 'int64', 'uint8', 'uint16'][case[1]]
        for f in (0, 1, 100, -1, -99, 255, -32767, -2147483647, 16777216, 16777217, 1e20, .1, float('nan')):
            if np.dtype(dt).kind in 'iu' and (f != f or f != int(f) or not np.iinfo(dt).min <= f <= np.iinfo(dt).max): continue
            with np.errstate(all='ignore'):
                d = np.array([0, 1, 2, 100], dt); near = np.array([f], dt)
            d = np.concatenate([d, near, near + np.array(1, dt), near - np.array(1, dt)]).astype(dt)
            want = d.astype(dt if np.dtype(dt).kind == 'f' else 'float32'); want[d == np.array(f).astype(dt)] = np.nan
            for kind in ('python', dt, 'float64', 'float32', '0d'):
                x = f if kind == 'python' else np.array(f, dt) if kind == '0d' else np.dtype(kind).type(f)
                if kind in ('float32', 'float64') and np.dtype(dt).kind in 'iu' and float(x) != f: continue
                if kind == 'float32' and dt == 'float64' and float(x) != f: continue
                g = pyg.Var([pyg.NamedAxis(len(d), 'q')], values=d).unfill(x).get(); rec.step()
                rec.check(ref.same(g, want, 0, 0, dtype=True), lambda: ref.diffmsg('unfill(%r) (%s) of %s %s' % (x, kind, dt, d), g, want), 'unfill')
                fl = pyg.Var([pyg.NamedAxis(len(d), 'q')], values=want).fill(7.).get()
                rec.check(ref.same(fl, np.where(np.isnan(want), np.array(7., want.dtype), want), 0, 0, dtype=True), lambda: 'fill(7.) of %s: %s' % (want, fl), 'fill')
        return
    _, k, j, depth = case
    O = ops(None)
    if j >= len(O): return
    v0, m0 = start(k)
    if not compare(rec, 'variable %d' % k, v0, m0): return
    seen = {}
    def step(v, m, i, path):
        label, f, mf = O[i]
        want = mf(m)
        if isinstance(want, int): return None          # not claimed: clashing axes
        path = path + [label]; name = 'variable %d: %s' % (k, ', '.join(path))
        r, err = ref.attempt(lambda: f(v)); rec.step()
        if want is None:
            rec.check(err is not None, lambda: '%s: was accepted' % name, 'refuse'); return None
        if not rec.check(err is None, lambda: '%s: raises %r' % (name, err), 'raises'): return None
        if label.startswith('sorted'): want = ties(r, want)
        if not compare(rec, name, r, want): return None
        rec.state(want.key())
        return r, want, path
    def walk(v, m, path, left):
        for i in range(len(O)):
            s = step(v, m, i, path)
            if s and left > 1 and s[1].arr.size <= 24:
                key = (s[1].key(), left)
                if key not in seen: seen[key] = 1; walk(s[0], s[1], s[2], left - 1)
    s = step(v0, m0, j, [])
    if s: walk(s[0], s[1], s[2], depth - 1)
