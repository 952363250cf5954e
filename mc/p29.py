"""P29: correlation, regression and significance tests equal their formulas."""
import itertools
import numpy as np
from . import ref

BOUND = {
 'quick': 'correlate, regress, difference, paired_difference, isnonzero: every pair of samples of 3 values of -1, 0, 2 and nan, of 4 values of -1, 0, 2, of 2 values of -1, 0, 1, 3 and nan, at once and in chunks of every size up to 12 points; multiple_regress: every Y of 4 values of -1, 0, 2 with 8 sets of 1 to 3 regressors; '
          '12 layouts of up to 4 axes in different order and with axes only one variable has, every set of reduction axes in every order and 2 notations, 6 memory limits, 3 storage protocols, 4 types, missing values; every single output, pair of outputs and default; degree of freedom factors 1 to 4, 4 confidence levels',
 'thorough': 'the same with every pair of samples of 4 values of -1, 0, 2 and nan, 5 values of 0, 1, 3, and 12 memory limits'}
NOTE = ', scipy (the distribution functions), Python and the reference model. p values are compared to 1e-6 absolute. Samples for which a statistic is not defined (no variance, not enough values) must give nan, except the p value of a regression on constant data and the correlation p value of two values, which are left open.'

FN = {'correlate': ['r', 'r2', 'p'], 'regress': ['m', 'b', 'r2', 'p', 'sm', 'se'], 'difference': ['d', 'df', 'p', 'ci'], 'paired_difference': ['d', 'df', 'p', 'ci'], 'isnonzero': ['m', 'p', 'ci']}
DEF = {'correlate': 'rp', 'regress': 'mbp', 'difference': ['d', 'p', 'ci'], 'paired_difference': ['d', 'p', 'ci'], 'isnonzero': 'mp', 'multiple_regress': ['B', 'p']}
ANY = None

def tp(t, df):
    """Two sided p value."""
    from scipy.special import stdtr
    return 2*stdtr(df, -abs(t))

def tq(alpha, df):
    from scipy.special import stdtrit
    return stdtrit(df, 1 - alpha/2)

def o_correlate(x, y, kw):
    k = ~np.isnan(x*y); x, y = x[k], y[k]; n = len(x); nan = np.nan
    if n == 0: return dict(r=nan, r2=nan, p=nan)
    a, b = x - x.mean(), y - y.mean(); sx, sy = (a*a).sum(), (b*b).sum()
    if sx < 1e-12 or sy < 1e-12: return dict(r=nan, r2=nan, p=nan)
    r = (a*b).sum()/np.sqrt(sx*sy)
    p = ANY
    if n > 2:
        # the t statistic is limited for perfect correlations
        p = tp(r*np.sqrt((n-2)/max(1 - r*r, 1e-8)), n-2)
    return dict(r=r, r2=r*r, p=p)

def o_regress(x, y, kw):
    k = ~np.isnan(x*y); x, y = x[k], y[k]; n = len(x); nan = np.nan
    f = kw.get('N_fac') or 1; df = n/f - 2
    if df <= 0: return dict.fromkeys(FN['regress'], nan)
    a, b = x - x.mean(), y - y.mean(); sx, sy = (a*a).sum(), (b*b).sum()
    if sx < 1e-12: return dict.fromkeys(FN['regress'], nan)
    m = (a*b).sum()/sx; c = y.mean() - m*x.mean(); sse = ((y - m*x - c)**2).sum()
    se = np.sqrt(sse/df); sm = se/np.sqrt(sx)
    return dict(m=m, b=c, se=se, sm=sm, r2=nan if sy < 1e-12 else (a*b).sum()**2/sx/sy, p=ANY if sy < 1e-12 else tp(abs(m)/sm, df) if sse > 1e-12 else 0.)

def o_difference(x, y, kw):
    x, y = x[~np.isnan(x)], y[~np.isnan(y)]; nan = np.nan
    fx, fy, al = kw.get('Nx_fac') or 1, kw.get('Ny_fac') or 1, kw.get('alpha', .05)
    o = dict(d=x.mean() - y.mean() if len(x) and len(y) else nan, df=nan, p=nan, ci=nan)
    nx, ny = len(x)//fx, len(y)//fy
    if len(x) < 2 or len(y) < 2 or nx < 2 or ny < 2: return o
    vx, vy = x.var(ddof=1)/nx, y.var(ddof=1)/ny
    if vx + vy < 1e-12: return o
    df = (vx + vy)**2/(vx**2/(nx-1) + vy**2/(ny-1)); s = np.sqrt(vx + vy)
    o.update(df=df, p=tp(o['d']/s, df), ci=tq(al, df)*s)
    return o

def o_paired_difference(x, y, kw):
    d = x - y; d = d[~np.isnan(d)]; nan = np.nan; f, al = kw.get('N_fac') or 1, kw.get('alpha', .05)
    n = len(d)//f
    o = dict(d=d.mean() if len(d) else nan, df=n - 1 if len(d) else ANY, p=nan, ci=nan)
    if n < 2 or len(d) < 2 or d.var() < 1e-12: return o
    s = np.sqrt(d.var(ddof=1)/n)
    o.update(p=tp(o['d']/s, n-1), ci=tq(al, n-1)*s)
    return o

def o_isnonzero(x, y, kw):
    d = x[~np.isnan(x)]; nan = np.nan; f, al = kw.get('N_fac') or 1, kw.get('alpha', .05)
    n = len(d)//f
    o = dict(m=d.mean() if len(d) else nan, p=nan, ci=nan)
    if n < 2 or len(d) < 2 or d.var() < 1e-12: return o
    s = np.sqrt(d.var(ddof=1)/n)
    o.update(p=tp(o['m']/s, n-1), ci=tq(al, n-1)*s)
    return o

ORACLE = dict(correlate=o_correlate, regress=o_regress, difference=o_difference, paired_difference=o_paired_difference, isnonzero=o_isnonzero)

def expect(fn, x, y, kw):
    """x, y: (points, samples)"""
    out = {k: np.empty(len(x)) for k in FN[fn]}; free = {k: np.zeros(len(x), bool) for k in FN[fn]}
    f = ORACLE[fn]
    for i in range(len(x)):
        o = f(x[i], y[i], kw)
        for k, v in o.items():
            if v is ANY: free[k][i] = True; v = 0.
            out[k][i] = v
    return out, free

def near(got, want, free, tol):
    """Mask of the points that agree."""
    got = np.asarray(got, float)
    ok = (np.isnan(got) & np.isnan(want)) | free
    with np.errstate(all='ignore'): ok |= np.abs(got - want) <= tol*np.maximum(1, np.abs(want))
    return ok

TOL = dict(p=1e-6, se=1e-6, sm=1e-6, sb=1e-6)

def call(fn, X, Y, **kw):
    import pygeode as pyg
    from pygeode import stats
    from pygeode.progress import FakePBar
    f = getattr(stats, fn)
    return ref.attempt(lambda: f(X, pbar=FakePBar(), **kw) if fn == 'isnonzero' else f(X, Y, pbar=FakePBar(), **kw))

SAMP = {'n3': ((-1., 0., 2., np.nan), 3), 'n4': ((-1., 0., 2.), 4), 'n2': ((-1., 0., 1., 3., np.nan), 2), 'n4n': ((-1., 0., 2., np.nan), 4), 'n5': ((0., 1., 3.), 5)}

def cases(tier):
    out = []
    for fn in FN:
        for s in ['n3', 'n4', 'n2'] + (['n4n', 'n5'] if tier == 'thorough' else []):
            nb = 8 if s not in ('n4n', 'n5') else 32
            for b in range(nb): out.append(['samples', fn, s, b, nb])
        for i in range(len(LAY)): out.append(['layout', fn, i, tier])
        out += [['outs', fn], ['dof', fn], ['types', fn], ['wrong', fn]]
    for i in range(len(REG)): out.append(['mreg', i])
    for i in range(len(MLAY)): out.append(['mlay', i, tier])
    out += [['mouts'], ['mdof']]
    return out

def run(case, rec):
    import warnings; warnings.simplefilter('ignore')
    with np.errstate(all='ignore'): globals()['r_' + case[0]](case, rec)

def compare(rec, what, key, ds, outs, want, free, pts):
    """ds: results; every output requested is there, and no others."""
    if not rec.check(sorted(v.name for v in ds.vars) == sorted(outs), lambda: '%s returned %r' % (what, [v.name for v in ds.vars]), key + ':outputs'): return
    for k in outs:
        g = pts(ds[k])
        if g is None: rec.fail('%s: %s has the axes %r' % (what, k, ds[k].axes), key + ':axes'); continue
        ok = near(g, want[k], free[k], TOL.get(k, 1e-9))
        if not ok.all():
            i = int(np.argmin(ok)); rec.fail('%s: %s is %r instead of %r at point %d (%d of %d points differ)' % (what, k, g[i], want[k][i], i, (~ok).sum(), len(ok)), key + ':' + k)

def r_samples(case, rec):
    import pygeode as pyg
    _, fn, s, b, nb = case
    vals, n = SAMP[s]
    L = list(itertools.product(vals, repeat=n))
    if fn == 'isnonzero': P = [(x, x) for x in L] if b == 0 else []
    else: P = [p for i, p in enumerate(itertools.product(L, L)) if i % nb == b]
    if not P: return
    x = np.array([p[0] for p in P]); y = np.array([p[1] for p in P]); K = len(P)
    want, free = expect(fn, x, y, {})
    t, k = pyg.NamedAxis(n, 'sample'), pyg.NamedAxis(K, 'point'); A = (k, t)
    X, Y = ref.var(A, x, 'mem', name='x'), ref.var(A, y, 'mem', name='y')
    ds, err = call(fn, X, Y, axes=['sample'], output=','.join(FN[fn])); rec.step(K)
    what = '%s of all samples of %d values of %r' % (fn, n, vals)
    if rec.check(err is None, lambda: '%s: %r' % (what, err), fn + ':samples:error'):
        compare(rec, what, fn + ':samples', ds, FN[fn], want, free, lambda v: v.get() if v.shape == (K,) else None)
    for i in range(K): rec.state(fn, s, x[i], y[i])
    # in chunks
    for lim in range(1, 13):
        q = slice(5*lim % max(K-7, 1), 5*lim % max(K-7, 1) + 7)
        k2 = pyg.NamedAxis(len(x[q]), 'point')
        for A2, d in (((k2, t), lambda a: a), ((t, k2), np.transpose)):
            X, Y = ref.var(A2, d(x[q]), 'getview', name='x'), ref.var(A2, d(y[q]), 'getview', name='y')
            with ref.chunks(lim): ds, err = call(fn, X, Y, axes=['sample'], output=','.join(FN[fn]))
            rec.step(len(x[q]))
            if rec.check(err is None, lambda: '%s, limit %d: %r' % (what, lim, err), fn + ':chunks:error'):
                compare(rec, what + ', at most %d values at once' % lim, fn + ':chunks', ds, FN[fn], {k: v[q] for k, v in want.items()}, {k: v[q] for k, v in free.items()}, lambda v: v.get() if v.shape == (len(x[q]),) else None)

# ---- layouts --------------------------------------------------------------------------------------
LAY = [('t', 't'), ('ty', 'ty'), ('ty', 'yt'), ('tyx', 'tyx'), ('xty', 'ytx'), ('etyx', 'xyte'), ('yx', 'xy'), ('t', 'ty'), ('ty', 't'), ('tx', 'ty'), ('tyx', 'te'), ('yt', 'xyt')]

def ax():
    import pygeode as pyg
    return dict(t=pyg.StandardTime([0., 1., 5., 6., 31.], units='days', startdate=dict(year=2000, month=1, day=30)), y=pyg.Lat([60., 20., -35.]), x=pyg.NamedAxis([7., 1.], 'foo'), e=pyg.NamedAxis(2, 'ens'), n=pyg.Pres([100., 50.]))

def values(lay, salt, nans, dtype='d'):
    A = ax(); sh = [len(A[c]) for c in lay]
    r = np.random.RandomState(salt + len(lay))
    d = r.randint(-6, 7, sh).astype(dtype)
    if nans and d.dtype.kind == 'f':
        d.flat[(3 + salt) % d.size] = np.nan
        if d.size > 8: d.flat[(7*salt + 1) % d.size] = np.nan
        if nans > 1 and d.ndim > 1: d[(slice(None),)*(d.ndim-1) + (0,)] = np.nan
    return d

def full(d, lay, src):
    """Broadcast to the axes `src`."""
    A = ax()
    o = d.transpose([lay.index(c) for c in src if c in lay]).reshape([len(A[c]) if c in lay else 1 for c in src])
    return np.broadcast_to(o, [len(A[c]) for c in src])

def names(red, form):
    import pygeode as pyg
    A = ax()
    if form == 'name': return [A[c].name for c in red]
    return [pyg.timeaxis.Time if c == 't' else type(A[c]) if c in 'yn' else A[c].name for c in red]

def pts_of(outl, src_order):
    """Function that returns the values of a result in the order of the axes outl."""
    A = ax()
    def f(v):
        want = [A[c].name for c in outl]
        if sorted(a.name for a in v.axes) != sorted(want) or not all(a == A[c] for c in outl for a in v.axes if a.name == A[c].name): return None
        g = np.asarray(v.get())
        return g.transpose([[a.name for a in v.axes].index(n) for n in want]).ravel() if g.ndim else g.reshape(1)
    return f

def r_layout(case, rec):
    _, fn, i, tier = case
    l1, l2 = LAY[i]; A = ax()
    if fn == 'isnonzero': l2 = l1
    if fn in ('difference', 'paired_difference') and set(l1) != set(l2): rec.outcome('not applicable'); return
    shared = [c for c in l1 if c in l2]; src = ''.join(c for c in 'etyx' if c in l1 + l2)
    reds = [None] + [r for k in range(1, len(shared)+1) for r in itertools.permutations(shared, k)]
    lims = (None, 1, 2, 3, 5, 7, 30) if tier == 'quick' else (None,) + tuple(range(1, 13))
    for red in reds:
        rd = tuple(shared) if red is None else red
        outl = [c for c in src if c not in rd]
        ns = int(np.prod([len(A[c]) for c in rd]))
        for nans in (0, 1, 2):
            d1, d2 = values(l1, i, nans), values(l2, i + 50, nans)
            perm = [src.index(c) for c in outl] + [src.index(c) for c in rd]
            x = full(d1, l1, src).transpose(perm).reshape(-1, ns); y = full(d2, l2, src).transpose(perm).reshape(-1, ns)
            want, free = expect(fn, x, y, {})
            if tier == 'quick' and len(rd) > 2 and list(rd) not in (shared, shared[::-1]): continue
            for form, st, lim in [('name', 'mem', None), ('class', 'getvalues', None)] + [('name', 'getview', l) for l in lims[1:]] + ([('name', 'getvalues', 4)] if nans else []):
                if red is None and form == 'class': continue
                if len(l1) > 3 and lim in (1, 2) and tier == 'quick': continue
                X, Y = ref.var([A[c] for c in l1], d1, st, name='x'), ref.var([A[c] for c in l2], d2, st, name='y')
                with ref.chunks(lim or 0): ds, err = call(fn, X, Y, axes=None if red is None else names(red, form), output=','.join(FN[fn]))
                rec.step()
                what = '%s of axes %s, %s over %s (%s), %s, limit %s, nan %d' % (fn, l1, l2, 'all' if red is None else ''.join(red), form, st, lim, nans)
                if not rec.check(err is None, lambda: '%s: %r' % (what, err), fn + ':layout:error'): continue
                compare(rec, what, fn + ':layout', ds, FN[fn], want, free, pts_of(outl, src))
                rec.check(np.array_equal(X.get(), d1, equal_nan=True) and np.array_equal(Y.get(), d2, equal_nan=True), lambda: '%s changed its input' % what, fn + ':input')
                rec.state(fn, i, str(red), form, st, lim, nans)

def r_outs(case, rec):
    fn = case[1]; l = 'ty'; A = ax()
    d1, d2 = values(l, 3, 1), values(l, 9, 1)
    X, Y = ref.var([A[c] for c in l], d1, name='x'), ref.var([A[c] for c in l], d2, name='y')
    want, free = expect(fn, d1.T, d2.T, {})
    for outs in [None] + [[k] for k in FN[fn]] + [list(p) for p in itertools.permutations(FN[fn], 2)] + [list(p) for p in itertools.permutations(FN[fn], 3)] + [FN[fn], FN[fn][::-1]]:
        kw = {} if outs is None else dict(output=','.join(outs))
        ds, err = call(fn, X, Y, axes=['time'], **kw); rec.step()
        what = '%s, output %s' % (fn, outs)
        if not rec.check(err is None, lambda: '%s: %r' % (what, err), fn + ':outs:error'): continue
        compare(rec, what, fn + ':outs', ds, list(DEF[fn]) if outs is None else outs, want, free, pts_of(['y'], l)); rec.state(fn, str(outs))
    if fn != 'isnonzero':
        ds, err = call(fn, X, Y, axes=['time'], output='nonsense'); rec.step()
        rec.check(isinstance(err, ValueError), lambda: '%s accepted an unknown output: %r' % (fn, ds), fn + ':outs:unknown')

def r_dof(case, rec):
    """Degrees of freedom and confidence levels."""
    fn = case[1]; l = 'tye'; A = ax()
    d1, d2 = values(l, 5, 0), values(l, 6, 0)
    X, Y = ref.var([A[c] for c in l], d1, name='x'), ref.var([A[c] for c in l], d2, name='y')
    for red in (('t',), ('t', 'e'), ('e', 'y'), ('t', 'y', 'e')):
        outl = [c for c in l if c not in red]; perm = [l.index(c) for c in outl] + [l.index(c) for c in red]
        ns = int(np.prod([len(A[c]) for c in red]))
        x, y = d1.transpose(perm).reshape(-1, ns), d2.transpose(perm).reshape(-1, ns)
        fac = [f for f in (1, 2, 3, 4, 5) if ns % f == 0]
        if fn == 'difference': kws = [dict(Nx_fac=a, Ny_fac=b) for a in [None] + fac for b in [None] + fac]
        elif fn == 'correlate': kws = [{}]
        else: kws = [dict(N_fac=a) for a in [None] + fac]
        if fn not in ('correlate', 'regress'): kws = [dict(k, **a) for k in kws for a in ({}, dict(alpha=.01), dict(alpha=.05), dict(alpha=.1), dict(alpha=.5))]
        for kw in kws:
            want, free = expect(fn, x, y, kw)
            ds, err = call(fn, X, Y, axes=names(red, 'name'), output=','.join(FN[fn]), **kw); rec.step()
            what = '%s over %s, %r' % (fn, ''.join(red), kw)
            if not rec.check(err is None, lambda: '%s: %r' % (what, err), fn + ':dof:error'): continue
            compare(rec, what, fn + ':dof', ds, FN[fn], want, free, pts_of(outl, l)); rec.state(fn, str(red), str(kw))

def r_types(case, rec):
    fn = case[1]; A = ax(); l = 'ty'
    for t1 in ('float64', 'float32', 'int32', 'int16', 'uint8'):
        for t2 in ('float64', 'float32', 'int32', 'int16', 'uint8'):
            d1, d2 = np.abs(values(l, 11, 0)).astype(t1)*20, np.abs(values(l, 12, 0)).astype(t2)*20
            X, Y = ref.var([A[c] for c in l], d1, name='x'), ref.var([A[c] for c in l], d2, name='y')
            want, free = expect(fn, d1.T.astype(float), d2.T.astype(float), {})
            ds, err = call(fn, X, Y, axes=['time'], output=','.join(FN[fn])); rec.step()
            what = '%s of %s and %s' % (fn, t1, t2)
            if not rec.check(err is None, lambda: '%s: %r' % (what, err), fn + ':types:error'): continue
            compare(rec, what, fn + ':types', ds, FN[fn], want, free, pts_of(['y'], l)); rec.state(fn, t1, t2)

def r_wrong(case, rec):
    """Axes that are not shared are refused."""
    fn = case[1]; A = ax()
    X, Y = ref.var([A[c] for c in 'tx'], values('tx', 1, 0), name='x'), ref.var([A[c] for c in 'ty'], values('ty', 2, 0), name='y')
    for axes in (['nonsense'], ['lat'], ['time', 'lat']):
        ds, err = call(fn, X, Y, axes=axes); rec.step()
        rec.check(err is not None, lambda: '%s accepted the axes %r: %r' % (fn, axes, ds), fn + ':wrong'); rec.state(fn, str(axes))

# ---- multiple regression --------------------------------------------------------------------------
MOUT = ['B', 'r2', 'p', 'sb', 'covb', 'se']
REG = [[(1, 0, 2, 1)], [(1, 1, 1, 1)], [(1, 1, 1, 1), (0, 1, 2, 3)], [(1, 0, 0, 1), (0, 1, 1, 3)], [(1, 1, 1, 1), (1, -1, 1, -1)], [(1, 2, 3, 4), (4, 1, 2, 2)], [(1, 1, 1, 1), (0, 1, 2, 3), (0, 1, 4, 9)], [(1, 0, 0, 2), (0, 1, 0, 1), (0, 0, 1, 5)]]

def o_mreg(xs, y, fac=None):
    """xs: (samples, regressors)"""
    n, k = xs.shape; ne = n if fac is None else n//fac
    b = np.linalg.solve(xs.T @ xs, xs.T @ y); res = y - xs @ b; sse = (res**2).sum(); sst = ((y - y.mean())**2).sum()
    v = sse/(ne - k) if ne > k else np.nan
    C = np.linalg.inv(xs.T @ xs)*v; sb = np.sqrt(np.diag(C))
    small = sse < 1e-11*max(1, (y*y).sum())
    p = np.array([ANY if (small or sb[i] < 1e-7) and abs(b[i]) < 1e-7 else 0. if small else tp(b[i]/sb[i], ne - k) for i in range(k)], object)
    return dict(B=b, r2=1 - sse/sst if sst > 1e-12 else ANY, p=p, sb=sb, covb=C, se=np.sqrt(v))

def mcompare(rec, what, key, ds, outs, o, at, ne_ok=True):
    nm = sorted(v.name for v in ds.vars)
    if not rec.check(nm == sorted(outs), lambda: '%s returned %r' % (what, nm), key + ':outputs'): return
    for k in outs:
        g = at(ds[k])
        if g is None: rec.fail('%s: %s has the axes %r' % (what, k, ds[k].axes), key + ':axes'); continue
        w = o[k]
        if w is ANY: continue
        w = np.asarray(w, object).ravel(); free = np.array([v is ANY for v in w]); w = np.array([0. if v is ANY else v for v in w], float)
        g = np.asarray(g, float).ravel()
        ok = g.shape == w.shape and near(g, w, free, TOL.get(k, 1e-8)).all()
        if not rec.check(ok, lambda: '%s: %s is %r instead of %r' % (what, k, g.tolist(), w.tolist()), key + ':' + k): return

def mcall(Xs, Y, **kw):
    from pygeode import stats
    from pygeode.progress import FakePBar
    return ref.attempt(lambda: stats.multiple_regress(Xs, Y, pbar=FakePBar(), **kw))

def r_mreg(case, rec):
    import pygeode as pyg
    xs = np.array(REG[case[1]], float).T; k = xs.shape[1]
    L = list(itertools.product((-1., 0., 2.), repeat=4)); K = len(L); y = np.array(L)
    t, pt = pyg.NamedAxis(4, 'sample'), pyg.NamedAxis(K, 'point')
    want = [o_mreg(xs, y[i]) for i in range(K)]
    for lim in (None, 1, 3, 4, 9, 40):
        for order in (0, 1):
            Y = ref.var((pt, t) if order else (t, pt), y if order else y.T, 'getview', name='y')
            Xs = [ref.var((t,), xs[:, i], name='x%d' % i) for i in range(k)]
            with ref.chunks(lim or 0): ds, err = mcall(Xs, Y, axes=['sample'], output=','.join(MOUT))
            rec.step(K); what = 'multiple_regress of all Y against %r, limit %s' % (xs.T.tolist(), lim)
            if not rec.check(err is None, lambda: '%s: %r' % (what, err), 'mreg:error'): continue
            for i in range(K):
                mcompare(rec, what + ', Y = %r' % (L[i],), 'mreg', ds, MOUT, want[i], lambda v: v.get()[i] if v.axes[0] == pt and v.shape[1:] in ((), (k,), (k, k)) else None)
                rec.state('mreg', case[1], i, lim)
    # a regression with a constant is a simple regression
    if k == 2 and (xs[:, 0] == 1).all():
        Y = ref.var((t, pt), y.T, name='y'); X = ref.var((t,), xs[:, 1], name='x')
        a, err = mcall([ref.var((t,), xs[:, 0], name='one'), X], Y, output='B,sb,se')
        b, err2 = call('regress', X, Y, output='m,b,sm,se'); rec.step()
        if rec.check(err is None and err2 is None, lambda: repr((err, err2)), 'mreg:error'):
            z = np.zeros(K, bool)
            for n, g, w in (('B', a.B.get()[:, 1], b.m.get()), ('intercept', a.B.get()[:, 0], b.b.get()), ('sb', a.sb.get()[:, 1], b.sm.get()), ('se', a.se.get(), b.se.get())):
                rec.check(near(g, w, z, 1e-6).all(), lambda: 'multiple_regress with a constant and regress disagree on %s: %r %r' % (n, g.tolist(), w.tolist()), 'mreg:regress')

MLAY = [('ty', ['t']), ('ty', ['ty']), ('ty', ['t', 'ty']), ('yt', ['t', 'ty']), ('tyx', ['t', 'tx']), ('tyx', ['ty', 'yt']), ('xty', ['t', 't', 'yt']), ('tyx', ['t', 'y']), ('tye', ['te', 'y', 'et']), ('ty', ['tx', 't']), ('t', ['tx', 'ty']), ('tyx', ['tyx', 'xty'])]

def r_mlay(case, rec):
    _, i, tier = case
    ly, lx = MLAY[i]; A = ax()
    inx = set(''.join(lx)); src = ''.join(c for c in 'etyx' if c in inx | set(ly))
    common = [c for c in ly if c in inx]
    dy = values(ly, i, 0); dx = [values(l, 20 + 7*j + i, 0) for j, l in enumerate(lx)]
    sh = [len(A[c]) for c in src]
    for red in [None] + [r for k in range(1, len(common)+1) for r in itertools.permutations(common, k)]:
        rd = tuple(common) if red is None else red
        outl = [c for c in src if c not in rd]; perm = [src.index(c) for c in outl] + [src.index(c) for c in rd]
        ns = int(np.prod([len(A[c]) for c in rd]))
        x = np.stack([full(d, l, src).transpose(perm).reshape(-1, ns) for d, l in zip(dx, lx)], -1); y = full(dy, ly, src).transpose(perm).reshape(-1, ns)
        if ns <= len(lx) or any(np.linalg.cond(z.T @ z) > 1e8 for z in x): rec.outcome('singular'); continue
        want = [o_mreg(x[j], y[j]) for j in range(len(x))]
        for st, lim in [('mem', None)] + [(s, l) for s in ('getview', 'getvalues') for l in ((1, 3, 8) if tier == 'quick' else range(1, 13))]:
            Y = ref.var([A[c] for c in ly], dy, st, name='y'); Xs = [ref.var([A[c] for c in l], d, st, name='x%d' % j) for j, (l, d) in enumerate(zip(lx, dx))]
            with ref.chunks(lim or 0): ds, err = mcall(Xs, Y, axes=None if red is None else names(red, 'name'), output=','.join(MOUT))
            rec.step(); what = 'multiple_regress of axes %s against %s over %s, %s, limit %s' % (ly, lx, red, st, lim)
            if not rec.check(err is None, lambda: '%s: %r' % (what, err), 'mlay:error'): continue
            def at(v, j):
                nm = [a.name for a in v.axes]; w = [A[c].name for c in outl]
                n2 = len(nm) - len(w)
                if sorted(nm[:len(w)]) != sorted(w) or n2 != {'B': 1, 'p': 1, 'sb': 1, 'covb': 2}.get(v.name, 0): return None
                g = np.asarray(v.get()); g = g.transpose([nm.index(n) for n in w] + list(range(len(w), len(nm))))
                return g.reshape((-1,) + g.shape[len(w):])[j]
            for j in range(len(x)): mcompare(rec, what + ', point %d' % j, 'mlay', ds, MOUT, want[j], lambda v: at(v, j))
            rec.state('mlay', i, str(red), st, lim)

def mvars():
    A = ax(); l = 'te'
    x = [values(l, 31, 0), np.ones((5, 2))]; y = values('tey', 4, 0)
    return [ref.var([A[c] for c in l], d, name=n) for d, n in zip(x, ('p', 'q'))], ref.var([A[c] for c in 'tey'], y, name='y'), np.stack([d.ravel() for d in x], -1), y.reshape(-1, 3)

def r_mouts(case, rec):
    Xs, Y, x, y = mvars()
    want = [o_mreg(x, y[:, j]) for j in range(3)]
    for outs in [None] + [[k] for k in MOUT] + [list(p) for p in itertools.permutations(MOUT, 2)] + [MOUT[::-1]]:
        kw = {} if outs is None else dict(output=','.join(outs))
        ds, err = mcall(Xs, Y, **kw); rec.step(); what = 'multiple_regress, output %s' % (outs,)
        if not rec.check(err is None, lambda: '%s: %r' % (what, err), 'mouts:error'): continue
        for j in range(3): mcompare(rec, what, 'mouts', ds, DEF['multiple_regress'] if outs is None else outs, want[j], lambda v: v.get()[j])
        for v in ds.vars:
            for a in v.axes[1:]: rec.check([str(s) for s in list(a.auxarrays.values())[0]] == ['p', 'q'], lambda: '%s: regressors %r' % (what, a.auxarrays), 'mouts:names')
        rec.state(str(outs))
    ds, err = mcall(Xs, Y, output='nonsense'); rec.step(); rec.check(isinstance(err, ValueError), 'multiple_regress accepted an unknown output', 'mouts:unknown')

def r_mdof(case, rec):
    Xs, Y, x, y = mvars()
    for f in (None, 1, 2):
        want = [o_mreg(x, y[:, j], f) for j in range(3)]
        ds, err = mcall(Xs, Y, N_fac=f, output=','.join(MOUT)); rec.step(); what = 'multiple_regress, N_fac=%s' % f
        if rec.check(err is None, lambda: '%s: %r' % (what, err), 'mdof:error'):
            for j in range(3): mcompare(rec, what, 'mdof', ds, MOUT, want[j], lambda v: v.get()[j])
        rec.state(str(f))
