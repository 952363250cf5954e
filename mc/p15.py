"""P15: datasets stay consistent under every sequence of edits."""
import functools, itertools
import numpy as np
from . import ref

BOUND = {
 'quick': 'every sequence of up to 2 (from one of them 3) edits from an alphabet of 49 (add, remove, rename, replace, subset, map, merge, copy, with clashing, empty and unknown names and same-named different axes) on 5 initial '
          'datasets, states merged by content; 20 methods on each dataset reached by one edit; Dataset() of every list of <= 3 of 10 variables',
 'thorough': 'every sequence of up to 4 edits'}

def pool():
    import pygeode as pyg
    A = lambda: pyg.Lat([-10., 0., 20.]); B = lambda: pyg.Lat([-10., 5.]); Cc = lambda: pyg.Lat([1., 2.]); L = lambda: pyg.Lon([0., 90.])
    def V(i, name, *ax):
        d = ref.data([len(a) for a in ax], salt=i)*1.
        return ref.var(ax, d, ref.STORES[i % 3], name=name, atts={'id': i})
    return [V(0, 'u', A(), L()), V(1, 'v', A()), V(2, 'u', B()), V(3, '', L()), V(4, 'v', pyg.NamedAxis([1., 2.], 'lat01')), V(5, 'lat', L()), V(6, 'u01', Cc()), V(7, 'mean', A()),
            V(8, 'var', pyg.NamedAxis([5., 6.], 'lon')), V(9, 'u', L(), A())]

INIT = [[0, 1], [0, 1, 5], [0, 2], [6, 0, 9], [3, 8]]

class M:
    """model of one variable: name wanted, axes [(class, name, values)], array"""
    __slots__ = ('name', 'axes', 'arr')
    def __init__(self, name, axes, arr): self.name = name; self.axes = axes; self.arr = arr
    def renamed(self, n): return M(n, self.axes, self.arr)
    def axname(self, a, b): return M(self.name, [(c, b if n == a else n, x) for c, n, x in self.axes], self.arr)

def model(v): return M(v.name, [(type(a).__name__, a.name, tuple(np.asarray(a.values).tolist())) for a in v.axes], np.asarray(v.get()))

def ops(P, MP):
    """list of (label, function dataset->dataset or raises, model function list->list or None if it must be refused)"""
    import pygeode as pyg
    from pygeode.dataset import asdataset
    out = []
    def o(label, f, m): out.append((label, f, m))
    for i in range(len(P)):
        o('add %d' % i, lambda d, i=i: d.add(P[i]), lambda m, i=i: m + [MP[i]])
    for i, j in ((0, 2), (1, 4), (2, 6)):
        o('+[%d,%d]' % (i, j), lambda d, i=i, j=j: d + [P[i], P[j]], lambda m, i=i, j=j: m + [MP[i], MP[j]])
    o('+ 1', lambda d: d + P[1], lambda m: m + [MP[1]])
    o('add dataset', lambda d: d.add(pyg.Dataset([P[1], P[2]])), lambda m: m + [MP[1].axname('lat', 'lat01'), MP[2].axname('lat', 'lat02')])
    o('add itself', lambda d: d + d, lambda m: m + m)
    o('asdataset list', lambda d: asdataset([d, P[4]]), lambda m: m + [MP[4]])
    o('asdataset', lambda d: asdataset(d), lambda m: list(m))
    o('copy', lambda d: d.copy(), lambda m: list(m))
    for n in ('u', 'v', 'u01', 'lat'):
        o('remove %s' % n, lambda d, n=n: d.remove(n), lambda m, n=n: [v for v in m if v.name != n] if any(v.name == n for v in m) else None)
    o('- u', lambda d: d - 'u', lambda m: [v for v in m if v.name != 'u'] if any(v.name == 'u' for v in m) else None)
    o('- [u,v]', lambda d: d - ['u', 'v'], lambda m: [v for v in m if v.name not in ('u', 'v')] if {'u', 'v'} <= {v.name for v in m} else None)
    o('- (u01,)', lambda d: d - ('u01',), lambda m: [v for v in m if v.name != 'u01'] if any(v.name == 'u01' for v in m) else None)
    o('remove lon', lambda d: d.remove('lon'), lambda m: None if not any(v.name == 'lon' for v in m) else [v for v in m if v.name != 'lon'])
    for r in (dict(u='v'), dict(u='v', v='u'), dict(u=''), dict(v='lat'), dict(v='u01', u='w'), dict(nosuch='u'), dict(u01='u')):
        o('rename %s' % r, lambda d, r=r: d.rename_vars(**r), lambda m, r=r: [v.renamed(r.get(v.name, v.name)) for v in m])
    o('rename dict', lambda d: d.rename_vars({'u': 'a', 'v': 'a'}, u01='a'), lambda m: [v.renamed({'u': 'a', 'v': 'a', 'u01': 'a'}.get(v.name, v.name)) for v in m])
    for n, i in (('u', 2), ('v', 7), ('u', 5), ('nosuch', 1)):
        o('replace %s %d' % (n, i), lambda d, n=n, i=i: d.replace_vars(**{n: P[i]}), lambda m, n=n, i=i: [MP[i] if v.name == n else v for v in m])
    o('replace dict', lambda d: d.replace_vars({'u': P[1]}, v=P[0]), lambda m: [MP[1] if v.name == 'u' else MP[0] if v.name == 'v' else v for v in m])
    def take(m, name, f, drop=False):
        r = []
        for v in m:
            ax, arr = list(v.axes), v.arr
            for k in reversed(range(len(ax))):
                if ax[k][1] == name or ax[k][0].lower() == name:    # a keyword names an axis or its class
                    p = f(ax[k][2]); arr = np.take(arr, p, axis=k); ax[k] = (ax[k][0], ax[k][1], tuple(ax[k][2][q] for q in p))
                    if drop and len(p) == 1: arr = arr.squeeze(axis=k); ax.pop(k)
            r.append(M(v.name, ax, arr))
        return r
    o('i_lat=0', lambda d: d(i_lat=0), lambda m: take(m, 'lat', lambda v: [0]))
    o('s_lon=90', lambda d: d(s_lon=90), lambda m: take(m, 'lon', lambda v: [int(np.argmin(np.abs(np.array(v) - 90)))], True))
    o('lat=(-15,10)', lambda d: d(lat=(-15, 10)), lambda m: take(m, 'lat', lambda v: [q for q, x in enumerate(v) if -15 <= x <= 10]))
    o('nosuch=3', lambda d: d(nosuch=3), lambda m: list(m))
    o('map 2*', lambda d: d.map(lambda v: (v*2).rename(v.name)), lambda m: [M(v.name, v.axes, v.arr*2) for v in m])
    o('map partial', lambda d: d.map(functools.partial(lambda k, v: (v + k).rename(v.name), 1)), lambda m: [M(v.name, v.axes, v.arr + 1) for v in m])
    o('map rename', lambda d: d.map(lambda v: v.rename('q')), lambda m: [v.renamed('q') for v in m])
    o('map some', lambda d: d.map(lambda v: v if v.name != 'u' else None), lambda m: [v for v in m if v.name != 'u'])
    o('rename method', lambda d: d.map('rename', 'v'), lambda m: [v.renamed('v') for v in m])
    o('load', lambda d: d.load(), lambda m: list(m))
    return out

def conform(rec, label, ds, m):
    """check the dataset against the model; returns the model with the names the dataset gave"""
    ok = rec.check(len(ds.vars) == len(m), lambda: '%s: variables %s, expected %s' % (label, [v.name for v in ds.vars], [v.name for v in m]), 'vars')
    if not ok: return None
    want = [v.name or 'var' for v in m]
    names = [v.name for v in ds.vars]
    ok = rec.check(len(set(names)) == len(names) and all(names), lambda: '%s: variable names %s are not unique' % (label, names), 'names')
    ok &= rec.check(all((g == w) if want.count(w) == 1 else g.startswith(w) for g, w in zip(names, want)), lambda: '%s: variable names %s, wanted %s' % (label, names, want), 'names')
    ok &= rec.check(list(ds) == list(ds.vars) if False else all(a is b for a, b in zip(list(ds), ds.vars)) and len(list(ds)) == len(ds.vars), lambda: '%s: iteration differs from the list of variables' % label, 'iter')
    ok &= rec.check(set(ds.vardict) == set(names) and all(ds.vardict[v.name] is v for v in ds.vars), lambda: '%s: names %s lead to %s' % (label, names, {k: v.name for k, v in ds.vardict.items()}), 'dict')
    for v in ds.vars:
        ok &= rec.check(v.name in ds and ds[v.name] is v, lambda: '%s: [%r] is not that variable' % (label, v.name), 'getitem')
        if not hasattr(type(ds), v.name) and v.name not in ds.__dict__: ok &= rec.check(getattr(ds, v.name) is v, lambda: '%s: .%s is not that variable' % (label, v.name), 'getattr')
    # axes: the same coordinates and class; unique names; an axis object for each name
    fam = {}
    for v in m:
        for c, n, x in v.axes:
            fam.setdefault(n, [])
            if (c, x) not in fam[n]: fam[n].append((c, x))
    anames = [a.name for a in ds.axes]
    ok &= rec.check(len(set(anames)) == len(anames), lambda: '%s: axis names %s are not unique' % (label, anames), 'axisnames')
    ok &= rec.check(set(ds.axisdict) == set(anames) and all(ds.axisdict[a.name] is a for a in ds.axes), lambda: '%s: axes %s by name %s' % (label, anames, sorted(ds.axisdict)), 'axisdict')
    used = []
    for v in ds.vars:
        for a in v.axes:
            if not any(a is b for b in used): used.append(a)
    ok &= rec.check(len(used) == len(ds.axes) and all(any(a is b for b in ds.axes) for a in used), lambda: '%s: axes of the variables %s, of the dataset %s' % (label, [a.name for a in used], anames), 'axes')
    ok &= rec.check(len(ds.axes) == sum(len(f) for f in fam.values()), lambda: '%s: axes %s, expected %s' % (label, anames, fam), 'axes')
    out = []
    for v, w in zip(ds.vars, m):
        g = [(type(a).__name__, tuple(np.asarray(a.values).tolist())) for a in v.axes]
        ok &= rec.check(g == [(c, x) for c, n, x in w.axes], lambda: '%s: %s has axes %s, expected %s' % (label, v.name, g, w.axes), 'varaxes')
        for a, (c, n, x) in zip(v.axes, w.axes):
            ok &= rec.check(a.name == n if len(fam[n]) == 1 else (a.name.startswith(n) and a.name != n), lambda: '%s: axis %s of %s is called %s' % (label, n, v.name, a.name), 'axisname')
            ok &= rec.check(a.name in ds and (ds[a.name] is a or a.name in ds.vardict) and ds.hasaxis(a.name), lambda: '%s: axis %s not found by name' % (label, a.name), 'axisget')
        arr, err = ref.attempt(lambda: np.asarray(v.get()))
        ok &= rec.check(err is None and ref.same(arr, w.arr, 0, 0), lambda: '%s: %s: %r %s' % (label, v.name, err, ref.diffmsg('', arr, w.arr)), 'values')
        out.append(M(v.name, [(c, a.name, x) for a, (c, n, x) in zip(v.axes, w.axes)], w.arr))
    s, err = ref.attempt(lambda: str(ds)); ok &= rec.check(err is None, lambda: '%s: printing raises %r' % (label, err), 'str')
    ok &= rec.check(len(ds.vars) == 0 or all(n in s for n in names), lambda: '%s: printed %s' % (label, s), 'str')
    return out if ok else None

def snap(ds): return ([id(v) for v in ds.vars], [v.name for v in ds.vars], sorted((k, id(v)) for k, v in ds.vardict.items()), [id(a) for a in ds.axes], [a.name for a in ds.axes], sorted(ds.axisdict), dict(ds.atts),
                      [[a.name for a in v.axes] for v in ds.vars], [dict(v.atts) for v in ds.vars])

def cases(tier):
    out = [['init', k] for k in range(10)]
    n = 54
    for k in range(len(INIT)):
        for j in range(n): out.append(['seq', k, j, (3 if k == 1 else 2) if tier == 'quick' else 4])
    for k in range(len(INIT)): out.append(['methods', k])
    out.append(['atts'])
    return out

def run(case, rec):
    import warnings; warnings.simplefilter('ignore')
    import pygeode as pyg
    P = pool(); MP = [model(v) for v in P]
    t = case[0]
    if t == 'init':
        k = case[1]
        for c in [(k,)] + [(k, j) for j in range(10)] + [(k, i, j) for i in range(10) for j in range(10)]:
            ds = pyg.Dataset([P[i] for i in c]); rec.step()
            m = conform(rec, 'Dataset of %s' % (c,), ds, [MP[i] for i in c])
            if m: rec.state(tuple((v.name, tuple(a[1] for a in v.axes)) for v in m))
        if k == 0: conform(rec, 'empty', pyg.Dataset([]), [])
    elif t == 'seq':
        _, k, j, depth = case
        O = ops(P, MP)
        if j >= len(O): return
        psnap = [(v.name, id(v.axes[0]), dict(v.atts), [a.name for a in v.axes]) for v in P]
        start = pyg.Dataset([P[i] for i in INIT[k]], atts={'title': 'x'})
        m0 = conform(rec, 'initial %d' % k, start, [MP[i] for i in INIT[k]])
        if m0 is None: return
        seen = set()
        def step(ds, m, i, path):
            label, f, mf = O[i]
            before = snap(ds); want = mf(m)
            r, err = ref.attempt(lambda: f(ds)); rec.step()
            path = path + [label]; name = 'initial %d: %s' % (k, ', '.join(path))
            rec.check(snap(ds) == before, lambda: '%s: the source dataset changed' % name, 'source')
            if want is None:
                rec.check(err is not None, lambda: '%s: was accepted' % name, 'refuse'); return None
            if not rec.check(err is None, lambda: '%s: raises %r' % (name, err), 'raises'): return None
            m2 = conform(rec, name, r, want)
            rec.check(r.atts == {'title': 'x'}, lambda: '%s: attributes %s' % (name, r.atts), 'atts')
            if m2 is None or len(m2) > 6: return None
            key = tuple((v.name, v.arr.tobytes(), tuple(v.axes)) for v in m2)
            rec.state(key)
            return r, m2, path, key
        def walk(ds, m, path, left):
            for i in range(len(O)):
                s = step(ds, m, i, path)
                if s and left > 1 and (s[3], left) not in seen:
                    seen.add((s[3], left)); walk(s[0], s[1], s[2], left - 1)
        s = step(start, m0, j, [])
        if s: walk(s[0], s[1], s[2], depth - 1)
        rec.check(psnap == [(v.name, id(v.axes[0]), dict(v.atts), [a.name for a in v.axes]) for v in P], lambda: 'the variables put into the dataset changed', 'source')
    elif t == 'methods':
        O = ops(P, MP); start = pyg.Dataset([P[i] for i in INIT[case[1]]])
        ds_list = [('initial', start)]
        for label, f, mf in O:
            r, err = ref.attempt(lambda: f(start))
            if err is None: ds_list.append((label, r))
        for label, ds in ds_list:
            for name, args, kw in (('sin', (), {}), ('exp', (), {}), ('sqrt', (), {}), ('sign', (), {}), ('mean', (pyg.YAxis,), {}), ('max', (0,), {}), ('sum', (0,), {}), ('stdev', (0,), {}), ('squeeze', (), {}), ('transpose', (0,), {}), ('extend', (0, pyg.Pres([5.])), {}),
                                   ('as_type', ('float32',), {}), ('fill', (7.,), {}), ('unfill', (0.,), {}), ('sorted', (), {}), ('cumsum', (0,), {}), ('smooth', (0, 3), {}), ('nanmean', (-1,), {}), ('argmax', (0,), {}), ('diff', (0,), {})):
                if not hasattr(type(ds), name) and name not in ('mean',): continue
                each = []
                for v in ds.vars:
                    r, err = ref.attempt(lambda: getattr(v, name)(*args, **kw)); each.append((r, err))
                r, err = ref.attempt(lambda: getattr(ds, name)(*args, **kw)) if name not in ds.__dict__ else ref.attempt(lambda: ds.map(name, *args, **kw)); rec.step()
                what = 'initial %d, %s: %s%s' % (case[1], label, name, args)
                if any(e is not None for _, e in each) or any(not isinstance(x, pyg.Var) for x, _ in each):
                    rec.outcome('method not applicable'); rec.check(err is not None, lambda: '%s accepted although it fails on a variable' % what, 'methods'); continue
                if not rec.check(err is None, lambda: '%s raises %r' % (what, err), 'methods'): continue
                ev = [ref.attempt(lambda: np.asarray(x.get())) for x, _ in each]
                if any(e is not None for _, e in ev): rec.outcome('method fails on evaluation'); continue
                conform(rec, what, r, [M(x.name, [(type(a).__name__, a.name, tuple(np.asarray(a.values).tolist())) for a in x.axes], w) for (x, _), (w, _) in zip(each, ev)])
    elif t == 'atts':
        a = {'p': 1}; ds = pyg.Dataset([P[0]], atts=a); rec.step()
        ds.atts['q'] = 2
        rec.check(a == {'p': 1}, lambda: 'the dictionary passed to Dataset changed: %s' % a, 'atts')
        rec.check(pyg.Dataset([P[0]]).atts == {}, lambda: 'default attributes are shared', 'atts')
        for label, f in (('copy', lambda d: d.copy()), ('remove', lambda d: d.remove('u')), ('add', lambda d: d + P[1]), ('rename', lambda d: d.rename_vars(u='x')), ('map', lambda d: d.map(lambda v: v)), ('select', lambda d: d(i_lat=0)), ('load', lambda d: d.load())):
            r = f(ds); r.atts['new'] = 1; rec.step()
            rec.check('new' not in ds.atts and r.atts['p'] == 1, lambda: '%s shares its attributes with the source' % label, 'atts')
        c = ds.copy(); c.vars.append(P[1]); c.axes.append(None); c.vardict['zz'] = P[1]; c.axisdict['zz'] = None
        conform(rec, 'after changing a copy', ds, [MP[0]])
