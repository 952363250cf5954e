"""P17: operations never modify their inputs; evaluation is repeatable."""
import itertools, copy
import numpy as np
from . import ref, ops

BOUND = {
 'quick': 'every entry of the catalogue of 250 derived variables x 3 storage protocols: inputs (values, axes, auxiliary arrays, attributes, plot attributes, plain members) compared after building, after every one of the '
          'sequences of 2 requests (whole, 3 selections, load, another operation on the same inputs, all outputs) and after overwriting every array and attribute the result hands out; 60 calls with mutable arguments; 25 dataset operations',
 'thorough': 'as quick with sequences of 3 requests'}

def cases(tier):
    return [[k, l, s, tier] for k, L in (('cat', [l for l, _ in ops.catalogue()]), ('arg', sorted(ARGS())), ('ds', sorted(DSOPS()))) for l in L for s in ref.STORES]

def plain(o, skip=()):
    """a comparable copy of something"""
    if isinstance(o, np.ndarray): return (o.dtype.str, o.shape, o.tobytes() if o.dtype != object else repr(o.tolist()))
    if isinstance(o, dict): return tuple((repr(k), plain(v)) for k, v in sorted(o.items(), key=lambda x: repr(x[0])))
    if isinstance(o, (list, tuple)): return (type(o).__name__,) + tuple(plain(x) for x in o)
    if isinstance(o, (str, int, float, complex, bool, type(None), np.generic, type, slice)): return repr(o)
    return type(o).__name__

def snapaxis(a):
    return (type(a).__name__, a.name, plain(np.asarray(a.values)), plain(a.auxarrays), plain(a.atts), plain(a.plotatts), plain({k: v for k, v in vars(a).items() if isinstance(v, (str, int, float, bool, dict, np.ndarray)) and k != 'plotatts'}))

def snapvar(v):
    """everything observable of a variable, without evaluating it through pygeode"""
    m = {k: x for k, x in vars(v).items() if isinstance(x, (str, int, float, bool, tuple, list, dict, np.ndarray))}
    return (type(v).__name__, plain({k: x for k, x in m.items() if k != 'axes'}), tuple(snapaxis(a) for a in v.axes))

def snap(I, A):
    out = [('v%d' % i, snapvar(v)) for i, (v, _) in enumerate(I.vars)]
    return out + [(k, snapaxis(a)) for k, a in sorted(vars(A).items())]

def diff(x, y):
    d = [(k, s, t) for (k, s), (_, t) in zip(x, y) if s != t]
    if not d: return ''
    def dd(s, t):
        if isinstance(s, tuple) and isinstance(t, tuple) and len(s) == len(t):
            for a, b in zip(s, t):
                if a != b: return dd(a, b)
        return '%.300s -> %.300s' % (s, t)
    return '%s: %s' % (d[0][0], dd(d[0][1], d[0][2]))

def run(case, rec):
    import warnings; warnings.simplefilter('ignore')
    with np.errstate(all='ignore'):
        dict(cat=cat, arg=arg, ds=dsop)[case[0]](case, rec)

def same(a, b): return ref.same(a, b, 1e-12, 1e-12*(np.abs(b[np.isfinite(b)]).max() if b.dtype.kind in 'fc' and np.isfinite(b).any() else 1.), dtype=True)

def cat(case, rec):
    import pygeode as pyg
    _, label, store, tier = case
    # (the catalogue makes its axes when it is built: get hold of them)
    A = ops._ax(); keep = ops._ax; ops._ax = lambda: A
    try: f = dict(ops.catalogue())[label]
    finally: ops._ax = keep
    def build():
        I = ops.Inputs(store)
        before = []
        # snapshot each input as soon as it exists
        v0 = I.v
        def v(*a, **k):
            x = v0(*a, **k); x.plotatts['plotname'] = 'pn'; x.atts['lst'] = [1, 2]
            before.append(snapvar(x)); return x
        I.v = v
        r = f(I)
        rec.step()
        for (x, d), b in zip(I.vars, before):
            s = snapvar(x)
            rec.check(s == b, lambda: '%s (%s): building changed an input: %s' % (label, store, diff([('', b)], [('', s)])), label)
            rec.check(same(x.get(), d), lambda: '%s (%s): building changed the values of an input' % (label, store), label)
        return I, [x for x in (r if isinstance(r, tuple) else (r,)) if isinstance(x, pyg.Var)]
    S0 = [(k, snapaxis(a)) for k, a in sorted(vars(A).items())]
    I, R = build()
    S = snap(I, A)
    d = diff(S0, S[len(I.vars):]); rec.check(not d, lambda: '%s (%s): building changed an axis: %s' % (label, store, d), label)
    # references from variables used only once
    for n in range(len(R)):
        want = np.array(build()[1][n].get())
        nd = want.ndim
        reqs = [('all', lambda r: r.get(), want), ('load', lambda r: r.load().values, want), ('copy', lambda r: np.array(r.slice[()].get() if not nd else r.slice[tuple(slice(None) for i in range(nd))].get()), want)]
        if nd and want.size:
            for s in ((tuple(slice(1, None) for k in want.shape), tuple([k-1, 0] for k in want.shape), tuple(slice(0, 1) if i == 0 else slice(None, None, -1) for i in range(nd)))):
                w = want
                for i, x in enumerate(s): w = np.take(w, np.arange(w.shape[i])[x], axis=i)
                reqs.append(('%s' % (s,), lambda r, s=s: r.slice[s].get(), w))
        reqs.append(('again', lambda r: f_again(I, f), None))
        reqs.append(('inputs', lambda r: [v.get() for v, _ in I.vars], None))
        if len(R) > 1: reqs.append(('others', lambda r: [x.get() for x in R], None))
        L = 3 if tier == 'thorough' else 2
        for seq in itertools.product(reqs, repeat=L):
            r = build()[1][n] if L == 3 else R[n]
            for name, g, w in seq:
                v = g(r); rec.step()
                if w is not None:
                    rec.state(label, name, v)
                    if not rec.check(same(np.asarray(v), w), lambda: '%s (%s) %s, requests %s: %s' % (label, store, R[n].name, [x[0] for x in seq], ref.diffmsg(name, v, w)), label): break
        s = snap(I, A); d = diff(S, s); rec.check(not d, lambda: '%s (%s): evaluating changed %s' % (label, store, d), label)
    # overwrite everything the results hand out
    want = [np.array(r.get()) for r in R]
    for r, w in zip(R, want):
        for g in (lambda: r.get(), lambda: r[()] if not w.ndim else r[tuple(slice(None) for k in w.shape)], lambda: r.slice[tuple(slice(0, 1) for k in w.shape)].get(), lambda: r.slice[tuple(slice(None, None, -1) for k in w.shape)].get()):
            a = g(); rec.step()
            if isinstance(a, np.ndarray) and a.flags.writeable and not hasattr(r, 'values'): a[...] = 0
            b = np.asarray(a).base
            while b is not None and isinstance(b, np.ndarray) and not hasattr(r, 'values'):
                if b.flags.writeable and any(b is getattr(v, 'values', None) or b is getattr(v, '_d', None) for v, _ in I.vars): break
                b = b.base
        if not any(r is v for v, _ in I.vars) and not isinstance(r, pyg.Axis):
            if not hasattr(r, 'values'):
                q = r.load()
                try: q.values[...] = 0
                except ValueError: pass
            else:
                try: r.values[...] = 0
                except ValueError: pass
            for d in (r.atts, r.plotatts):
                for k in list(d): d[k] = 'changed'
                d['new'] = 1
            r.name = 'changed'; r.units = 'changed'
    s = snap(I, A); d = diff(S, s); rec.check(not d, lambda: '%s (%s): overwriting the arrays and attributes of the result changed %s' % (label, store, d), label)
    for (x, dd) in I.vars: rec.check(same(x.get(), dd), lambda: '%s (%s): overwriting the result changed the values of an input' % (label, store), label)
    for r, w in zip(R, want):
        if not hasattr(r, 'values'): rec.check(same(r.get(), w), lambda: '%s (%s): overwriting an array handed out changed the variable' % (label, store), label)

def f_again(I, f):
    class J: pass
    it = iter(I.vars); j = J(); j.v = lambda *a, **k: next(it)[0]
    r = f(j)
    for x in (r if isinstance(r, tuple) else (r,)): x.get()

# ---- arguments ------------------------------------------------------------------------------------
def ARGS():
    """label -> (mutable arguments, call(I, A, *arguments))"""
    import pygeode as pyg
    from pygeode.tools import combine_axes
    D = {}
    yx = lambda A: (A.y6, A.x)
    def o(l, args, f): D[l] = (args, f)
    o('slice list', lambda A: [[2, 0, 1]], lambda I, A, l: I.v(yx(A)).slice[(l,)])
    o('slice array', lambda A: [np.array([2, 0, -1])], lambda I, A, l: I.v(yx(A)).slice[(l,)])
    o('slice mask', lambda A: [np.array([True, False, True, False, False, True])], lambda I, A, l: I.v(yx(A)).slice[(l,)])
    o('l_', lambda A: [[20., -35.]], lambda I, A, l: I.v(yx(A))(l_lat=l))
    o('i_', lambda A: [[4, 1, 2, 0]], lambda I, A, l: I.v(yx(A))(i_lat=l))
    o('kwargs', lambda A: [dict(lat=(-40, 40), i_lon=1)], lambda I, A, d: I.v(yx(A))(**d))
    o('get kwargs', lambda A: [dict(lat=(-40, 40), i_lon=1)], lambda I, A, d: I.v(yx(A)).get(**d))
    o('replace_axes list', lambda A: [[pyg.Pres(np.arange(6.)+1), pyg.Lat([1., 2., 3.])]], lambda I, A, l: I.v(yx(A)).replace_axes(newaxes=l))
    o('replace_axes both', lambda A: [[pyg.Pres(np.arange(6.)+1), None]], lambda I, A, l: I.v(yx(A)).replace_axes(newaxes=l, lon=pyg.NamedAxis([1., 2., 3.], 'n')))
    o('replace_axes dict', lambda A: [{'lat': pyg.Pres(np.arange(6.)+1)}], lambda I, A, d: I.v(yx(A)).replace_axes(axisdict=d))
    o('replace_axes dict and key', lambda A: [{'lat': pyg.Pres(np.arange(6.)+1)}], lambda I, A, d: I.v(yx(A)).replace_axes(axisdict=d, lon=pyg.NamedAxis([1., 2., 3.], 'n')))
    o('rename_axes', lambda A: [{'lat': 'y'}], lambda I, A, d: I.v(yx(A)).rename_axes(**d))
    o('weights', lambda A: [A.x.slice[:], ], lambda I, A, d: I.v(yx(A)).mean('lon', weights=pyg.Var((d,), values=np.array([1., 2., 3.]))))
    for k in ([1., 2., 1.], np.array([1., 2., 1.]), np.array([1, 2, 1])):
        o('smooth kernel %r' % (k,), lambda A, k=k: [copy.copy(k)], lambda I, A, k: I.v(yx(A)).smooth('lat', k))
        o('smooth kernel %r fft' % (k,), lambda A, k=k: [copy.copy(k)], lambda I, A, k: I.v(yx(A)).smooth('lat', k, fft=True))
    o('smooth kernel even', lambda A: [np.array([1., 2., 1., 5.])], lambda I, A, k: I.v(yx(A)).smooth('lat', k))
    o('composite lists', lambda A: [[1, 4, 3, 2], [3, 2, 1, 2], [1, 1, 0, 0]], lambda I, A, i, n, o: I.v((A.t, A.x)).composite(i_time=i, evlen=n, evoff=o))
    o('composite arrays', lambda A: [[1, 4, 3, 2], np.array([3, 2, 1, 2]), np.array([1, 1, 0, 0])], lambda I, A, i, n, o: I.v((A.t, A.x)).composite(i_time=i, evlen=n, evoff=o))
    o('composite long', lambda A: [[1, 4, 0, 5], np.array([9, 9, 9, 9]), np.array([4, 4, 4, 4])], lambda I, A, i, n, o: I.v((A.t, A.x)).composite(i_time=i, evlen=n, evoff=o))
    o('lag', lambda A: [[2, 0, -1]], lambda I, A, l: I.v((A.t, A.x)).lag('time', l))
    o('lag array', lambda A: [np.array([2, 0, -1])], lambda I, A, l: I.v((A.t, A.x)).lag('time', l))
    o('concat list', lambda A: [None], lambda I, A, l: (lambda L: (pyg.concatenate(L), L)[0])([I.v((A.t.slice[3:], A.x)), I.v((A.t.slice[:3], A.x))]))
    o('dataset list', lambda A: [[pyg.Var((A.y,), values=np.arange(4.), name='b'), pyg.Var((A.y,), values=np.arange(4.), name='a')]], lambda I, A, l: pyg.Dataset(l))
    o('dataset dict', lambda A: [{'b': pyg.Var((A.y,), values=np.arange(4.), name='b'), 'a': pyg.Var((A.y,), values=np.arange(4.), name='x')}], lambda I, A, l: pyg.Dataset(list(l.values())))
    o('dataset atts', lambda A: [[pyg.Var((A.y,), values=np.arange(4.), name='b')], {'x': 1}], lambda I, A, l, a: pyg.Dataset(l, atts=a))
    o('var atts', lambda A: [np.arange(4.), {'x': 1}, {'y': 2}], lambda I, A, v, a, p: chg(pyg.Var((A.y,), values=v, atts=a, plotatts=p)))
    o('var axes list', lambda A: [[A.y]], lambda I, A, l: pyg.Var(l, values=np.arange(4.)))
    o('axis values', lambda A: [np.array([3., 1., 2.])], lambda I, A, v: pyg.Lat(v).sorted() if hasattr(pyg.Lat(v), 'sorted') else pyg.Var((pyg.Lat(v),), values=v).sorted('lat'))
    o('axis atts', lambda A: [{'x': 1}, {'y': 2}], lambda I, A, a, p: chg(pyg.NamedAxis([1., 2.], 'q', atts=a, plotatts=p)))
    o('time startdate', lambda A: [{'year': 2000, 'month': 2, 'day': 27}], lambda I, A, s: pyg.StandardTime(np.arange(4.), units='days', startdate=s))
    o('time startdate partial', lambda A: [{'year': 2000}], lambda I, A, s: pyg.ModelTime365(np.arange(4.), units='days', startdate=s))
    o('time fields', lambda A: [[2000, 2001], np.array([3, 14])], lambda I, A, y, m: pyg.StandardTime(units='days', startdate={'year': 1999}, year=y, month=m, day=[1, 1]))
    o('time values', lambda A: [np.array([.1, 1.2, 2.3])], lambda I, A, v: pyg.StandardTime(v, units='days', startdate={'year': 2000}))
    o('time values int', lambda A: [np.array([1, 2, 3], 'int32')], lambda I, A, v: pyg.StandardTime(v, units='hours', startdate={'year': 2000}))
    o('reltime', lambda A: [{'year': 1990, 'month': 5, 'day': 1}], lambda I, A, s: A.t.reltime(startdate=s, units='hours'))
    o('val_as_date', lambda A: [np.array([1., 2.])], lambda I, A, v: A.t.val_as_date(v))
    o('date_as_val', lambda A: [{'year': np.array([2000, 2001]), 'month': np.array([1, 14])}], lambda I, A, d: A.t.date_as_val(d))
    o('date_as_val scalar', lambda A: [{'year': 2000, 'month': 1}], lambda I, A, d: A.t.date_as_val(d))
    o('str_as_val', lambda A: ['2000-03-01'], lambda I, A, d: A.t.str_as_val('', d) if False else None)
    o('formatvalue', lambda A: [np.array([1., 2.])], lambda I, A, v: A.t.formatvalue(v[0]))
    o('interpolate axes', lambda A: [pyg.Lat([0., 10.])], lambda I, A, a: I.v(yx(A)).interpolate('lat', a, interp_type='linear'))
    o('interpolate fields', lambda A: [pyg.Var((A.y6, A.x), values=np.arange(18.).reshape(6, 3)), pyg.Var((pyg.Pres([1., 2.]),), values=np.array([1., 2.]))], lambda I, A, i, o: I.v(yx(A)).interpolate('lat', o.axes[0], inx=i, outx=o, interp_type='cspline'))
    o('interpolate decreasing', lambda A: [pyg.Var((A.y6, A.x), values=-np.arange(18.).reshape(6, 3)), pyg.Var((pyg.Pres([1., 2.]),), values=np.array([1., 2.]))], lambda I, A, i, o: I.v(yx(A)).interpolate('lat', o.axes[0], inx=i, outx=o, interp_type='linear'))
    o('deriv dx', lambda A: [pyg.Var((A.y6, A.x), values=np.arange(18.).reshape(6, 3))], lambda I, A, d: I.v(yx(A)).deriv('lat', dx=d))
    o('integrate dx v0', lambda A: [pyg.Var((A.y6, A.x), values=np.arange(18.).reshape(6, 3)), pyg.Var((A.x,), values=np.arange(3.))], lambda I, A, d, v: I.v(yx(A)).integrate('lat', dx=d, v0=v))
    o('integrate v0 array', lambda A: [np.arange(3.)], lambda I, A, v: I.v(yx(A)).integrate('lat', v0=pyg.Var((A.x,), values=v)))
    o('regress axes', lambda A: [['time']], lambda I, A, l: pyg.regress(I.v((A.t,)), I.v((A.t, A.x)), axes=l, pbar=ops.PB()))
    o('correlate axes', lambda A: [['time']], lambda I, A, l: pyg.correlate(I.v((A.t, A.x)), I.v((A.t, A.x)), axes=l, pbar=ops.PB()))
    o('difference axes', lambda A: [['time']], lambda I, A, l: pyg.difference(I.v((A.t, A.x)), I.v((A.t, A.x)), axes=l, pbar=ops.PB()))
    o('paired axes', lambda A: [['time']], lambda I, A, l: pyg.paired_difference(I.v((A.t, A.x)), I.v((A.t, A.x)), axes=l, pbar=ops.PB()))
    o('isnonzero axes', lambda A: [['time']], lambda I, A, l: pyg.isnonzero(I.v((A.t, A.x)), axes=l, pbar=ops.PB()))
    o('mean list', lambda A: [['lat', 'lon']], lambda I, A, l: I.v((A.y, A.x)).mean(*l))
    o('transpose list', lambda A: [['lon', 'lat']], lambda I, A, l: I.v((A.y, A.x)).transpose(*l))
    o('extend axes', lambda A: [[A.p, A.q]], lambda I, A, l: I.v((A.y, A.x)).extend(1, l) if False else I.v((A.y, A.x)).extend(1, *l))
    o('combine_axes', lambda A: [[(A.y, A.x), (A.x, A.p)]], lambda I, A, l: combine_axes([pyg.Var(a, values=np.zeros([len(x) for x in a])) for a in l]) and None)
    o('vsum list', lambda A: [None], lambda I, A, l: pyg.vsum(I.v((A.y, A.x)), I.v((A.x,))) if hasattr(pyg, 'vsum') else None)
    o('ensemble list', lambda A: [None], lambda I, A, l: pyg.ensemble([I.v((A.y, A.x), name='e'), I.v((A.y, A.x), name='e')]))
    o('finalize namemap', lambda A: [{'lat': 'latitude'}], lambda I, A, d: pyg.Dataset([I.v((A.y, A.x), name='v')]).rename_axes(**d))
    def eof(v, **k):
        import io, contextlib
        with contextlib.redirect_stdout(io.StringIO()): return pyg.Dataset(list(pyg.EOF(v, **k)))
    def svd(v, w, **k):
        import io, contextlib
        np.random.seed(1)
        with contextlib.redirect_stdout(io.StringIO()): return pyg.Dataset(list(pyg.SVD(v, w, **k)))
    o('EOF', lambda A: [None], lambda I, A, l: eof(I.v((A.t, A.y)), num=1))
    o('EOF weight', lambda A: [pyg.Var((A.y,), values=np.array([1., 2., 3., 4.]))], lambda I, A, w: eof(I.v((A.t, A.y)), num=1, weight=w))
    o('EOF axes', lambda A: [[pyg.timeaxis.Time], ['eof', 'eig']], lambda I, A, l, out: eof(I.v((A.t, A.y, A.x)), num=1, iaxis=l, out=out))
    return D

def chg(v):
    """overwrite the attributes of an object"""
    for d in (v.atts, v.plotatts):
        for k in list(d): d[k] = 'changed'
        d['new'] = 1
    return v

def deep(o):
    import pygeode as pyg
    if isinstance(o, pyg.Axis): return snapaxis(o)
    if isinstance(o, pyg.Var): return snapvar(o)
    if isinstance(o, (list, tuple)): return (type(o).__name__,) + tuple(deep(x) for x in o)
    if isinstance(o, dict): return tuple((repr(k), deep(v)) for k, v in o.items())
    return plain(o)

def arg(case, rec):
    import pygeode as pyg
    _, label, store, tier = case
    mk, f = ARGS()[label]
    A = ops._ax(); I = ops.Inputs(store)
    args = mk(A)
    before = deep(args); S0 = [(k, snapaxis(a)) for k, a in sorted(vars(A).items())]
    def same_(what):
        rec.step()
        s = deep(args); rec.check(s == before, lambda: '%s (%s): %s changed an argument: %s' % (label, store, what, diff([('', before)], [('', s)])), 'arg:' + label)
        s = [(k, snapaxis(a)) for k, a in sorted(vars(A).items())]; rec.check(s == S0, lambda: '%s (%s): %s changed %s' % (label, store, what, diff(S0, s)), 'arg:' + label)
        for v, d in I.vars: rec.check(same(v.get(), d), lambda: '%s (%s): %s changed an input' % (label, store, what), 'arg:' + label)
    r = f(I, A, *args)
    same_('calling')
    vs = r.vars if isinstance(r, pyg.Dataset) else [r] if isinstance(r, pyg.Var) else []
    want = [np.array(v.get()) for v in vs]
    same_('evaluating')
    for v in vs: v.slice[tuple(slice(None, None, -1) for _ in v.axes)].get()
    same_('evaluating a selection')
    for v, w in zip(vs, want): rec.state(label, w); rec.check(same(np.asarray(v.get()), w), lambda: '%s (%s): not repeatable' % (label, store), 'arg:' + label)
    # changing the arguments afterwards changes nothing that was built from plain containers
    if not isinstance(r, pyg.Dataset):
        for v in vs:
            if v.atts is not None:
                v.atts['zzz'] = 1
        same_('setting an attribute of the result')
    # the same call again gives the same
    r2 = f(ops.Inputs(store), ops._ax(), *args)
    vs2 = r2.vars if isinstance(r2, pyg.Dataset) else [r2] if isinstance(r2, pyg.Var) else []
    for v, w in zip(vs2, want): rec.check(same(np.asarray(v.get()), w), lambda: '%s (%s): a second call with the same arguments gives something else: %s' % (label, store, ref.diffmsg('', v.get(), w)), 'arg:' + label)

# ---- datasets -------------------------------------------------------------------------------------
def DSOPS():
    import pygeode as pyg
    D = {}
    def o(l, f): D[l] = f
    o('select', lambda d, e: d(lat=(-30, 60)))
    o('select i', lambda d, e: d(i_lon=1))
    o('mean', lambda d, e: d.mean('lat') if False else (d - 'b').mean('lon'))
    o('mean all', lambda d, e: d.map(lambda v: v.mean('lat')))
    o('+', lambda d, e: d + pyg.Var((d.lat,), values=np.arange(4.), name='new'))
    o('+ duplicate', lambda d, e: d + pyg.Var((d.lat,), values=np.arange(4.), name='a'))
    o('+ dataset', lambda d, e: d + e)
    o('-', lambda d, e: d - 'a')
    o('remove', lambda d, e: d.remove('b'))
    o('rename_vars', lambda d, e: d.rename_vars(a='z'))
    o('rename_axes', lambda d, e: d.rename_axes(lat='y'))
    o('replace_vars', lambda d, e: d.replace_vars(a=pyg.Var((d.lat,), values=np.arange(4.))))
    o('replace_axes', lambda d, e: d.replace_axes(lat=pyg.Pres([1., 2., 3., 4.])))
    o('sorted', lambda d, e: d.sorted('lat') if hasattr(d, 'sorted') else d)
    o('transpose', lambda d, e: (d - 'b').map(lambda v: v.transpose('lon')))
    o('asdataset', lambda d, e: pyg.asdataset(d))
    o('asdataset copy', lambda d, e: pyg.asdataset(d, copy=True))
    o('asdataset list', lambda d, e: pyg.asdataset([d, e]))
    o('asdataset vars', lambda d, e: pyg.asdataset(list(d.vars)))
    o('copy', lambda d, e: d.copy() if hasattr(d, 'copy') else d)
    o('subset', lambda d, e: d['a', 'b'] if False else pyg.Dataset([d.a, d.b]))
    o('sin', lambda d, e: d.sin())
    o('concatenate', lambda d, e: pyg.dataset.concat([d, e]) if False else pyg.concatenate(pyg.Dataset([d.a]), pyg.Dataset([pyg.Var((pyg.Lat([60., 70.]), d.lon), values=np.ones((2, 3)), name='a')])))
    o('load', lambda d, e: d.load())
    o('extend', lambda d, e: d.map('extend', 0, pyg.Pres([1., 2.])))
    from pygeode.formats import cfmeta
    from pygeode import ext_xarray
    def save(d, e, **k):
        import tempfile, shutil, os
        t = tempfile.mkdtemp(prefix='p17-')
        try: pyg.save(os.path.join(t, 'a.nc'), d, **k)
        finally: shutil.rmtree(t)
        return d
    for f in ('netcdf', 'netcdf4'):
        for p in (None, 'int16') if f == 'netcdf4' else (None,): o('save %s %s' % (f, p), lambda d, e, f=f, p=p: save(d, e, format=f, version=3, **({'pack': True} if p else {})))
    o('save unlimited', lambda d, e: save(d, e, unlimited='lat'))
    o('save compressed', lambda d, e: save(d, e, compress=True))
    o('save nocf', lambda d, e: save(d, e, cfmeta=False))
    o('encode_cf', lambda d, e: cfmeta.encode_cf(d))
    o('decode_cf', lambda d, e: cfmeta.decode_cf(cfmeta.encode_cf(d)))
    o('xarray', lambda d, e: (ext_xarray.to_xarray(d), d)[1])
    o('set_axistypes', lambda d, e: pyg.formats.set_axistypes(d, {'lat': pyg.YAxis}))
    return D

def snapds(d): return (type(d).__name__, plain(d.atts), tuple(v.name for v in d.vars), tuple(id(v) for v in d.vars), tuple(snapvar(v) for v in d.vars), tuple(snapaxis(a) for a in d.axes))

def dsop(case, rec):
    import pygeode as pyg
    _, label, store, tier = case
    f = DSOPS()[label]
    A = ops._ax(); I = ops.Inputs(store)
    d = pyg.Dataset([I.v((A.y, A.x), name='a'), I.v((A.y,), name='b'), I.v((A.x, A.y), name='c')], atts={'t': 1, 'l': [1]})
    e = pyg.Dataset([I.v((A.y, A.x), name='a'), I.v((A.p,), name='x')], atts={'t': 2})
    b = [('d', snapds(d)), ('e', snapds(e))]
    def same_(what):
        rec.step()
        s = [('d', snapds(d)), ('e', snapds(e))]; rec.check(s == b, lambda: '%s (%s): %s changed the dataset: %s' % (label, store, what, diff(b, s)), 'ds:' + label)
        for v, x in I.vars: rec.check(same(v.get(), x), lambda: '%s (%s): %s changed an input' % (label, store, what), 'ds:' + label)
    r = f(d, e); same_('calling')
    vs = list(r.vars) if isinstance(r, pyg.Dataset) else []
    rec.check(vs, lambda: '%s: %r' % (label, r), 'ds:' + label)
    W = [np.array(v.get()) for v in vs]; same_('evaluating')
    for v, w in zip(vs, W): rec.state(label, w)
    if r is not d:
        r.atts['new'] = 1; r.atts['t'] = 'changed'; same_('setting attributes of the result')
        for v in vs:
            if any(v is x for x in d.vars) or any(v is x for x in e.vars): continue
            v.atts['new'] = 1; v.plotatts['new'] = 1; v.name = 'changed'; v.units = 'changed'
            if not hasattr(v, 'values'):
                q = v.load()
                try: q.values[...] = 0
                except ValueError: pass
        same_('setting attributes of its variables')
    R = f(d, e)
    for v, w in zip(R.vars, W): rec.check(same(np.asarray(v.get()), w), lambda: '%s (%s): not repeatable' % (label, store), 'ds:' + label)
