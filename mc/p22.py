"""P22: interpolation passes through the data and reproduces known functions."""
import itertools
import numpy as np
from . import ref

BOUND = {
 'quick': 'all 6 interpolation types, 1 to 6 unevenly spaced points in rising and falling order (every order of up to 4 points for refusal), every pattern of missing data values and, for coordinate fields, missing coordinates, '
          'targets on every point, between and outside in rising, falling and mixed order, four settings of the extrapolation slopes; the axis as only, first, middle, last of up to 3 axes, of a class of its own or shared (named axes), '
          'input and output coordinate fields of every set of axes whose profiles run in different directions, the first of them empty or short, 3 storage protocols, 5 data types, every target and every profile read alone',
 'thorough': 'as quick with 7 points'}

TYPES = ('linear', 'polynomial', 'cspline', 'cspline_periodic', 'akima', 'akima_periodic')
MIN = dict(linear=2, polynomial=3, cspline=3, cspline_periodic=2, akima=5, akima_periodic=5)
X = [0., 1., 2.5, 3., 5., 9., 9.5]
nan = float('nan')
SLOPES = ((nan, nan), (2., nan), (nan, -3.), (.5, 0.))

def layouts(): return [((None,), 0), ((None, 2), 0), ((2, None), 1), ((2, None, 3), 1), ((3, 2, None), 2), ((None, 2, 2), 0)]

def cases(tier):
    N = 7 if tier == 'thorough' else 6
    out = [['refuse']]
    for t in TYPES:
        for n in range(1, N+1):
            for dec in (0, 1): out.append(['line', t, n, dec])
        for n in range(3 if t == 'cspline_periodic' else 2, 5): out.append(['order', t, n])     # (two points: refused by the periodic spline of GSL)
        for lay in range(len(layouts())):
            for s in ref.STORES:
                for dt in ('float64', 'float32', 'int32', 'int8', 'uint8'):
                    if dt == 'float64' or t in ('linear', 'cspline'): out.append(['lay', t, lay, s, dt])
            out.append(['field', t, lay, 'mem' if lay % 2 else 'getview'])
        out.append(['named', t])
    return out

def spline(x, y, periodic):
    """piecewise cubic coefficients from the second derivatives at the points (dense solve)"""
    n = len(x); h = np.diff(x); A = np.zeros((n, n)); b = np.zeros(n)
    for i in range(1, n-1):
        A[i, i-1], A[i, i], A[i, i+1] = h[i-1], 2*(h[i-1]+h[i]), h[i]
        b[i] = 6*((y[i+1]-y[i])/h[i] - (y[i]-y[i-1])/h[i-1])
    if periodic:
        A[0, 0], A[0, n-1] = 1, -1
        A[n-1, n-2] += h[n-2]; A[n-1, n-1] += 2*h[n-2]; A[n-1, 0] += 2*h[0]; A[n-1, 1] += h[0]
        b[n-1] = 6*((y[1]-y[0])/h[0] - (y[n-1]-y[n-2])/h[n-2])
    else: A[0, 0] = A[n-1, n-1] = 1
    M = np.linalg.solve(A, b)
    def f(i, t):
        a, c = (x[i+1]-t), (t-x[i]); k = h[i]
        return (M[i]*a**3 + M[i+1]*c**3)/(6*k) + (y[i]/k - M[i]*k/6)*a + (y[i+1]/k - M[i+1]*k/6)*c
    return f

def akima(x, y, periodic):
    n = len(x); h = np.diff(x); m = list(np.diff(y)/h)
    if periodic: e = [m[-2], m[-1]] + m + [m[0], m[1]]
    else:
        l1 = 2*m[0]-m[1]; r1 = 2*m[-1]-m[-2]
        e = [3*m[0]-2*m[1], l1] + m + [r1, 3*m[-1]-2*m[-2]]
    def slopes(i):
        """slopes at the two ends of interval i"""
        mm = e[i:i+5]
        ne, nx = abs(mm[3]-mm[2]) + abs(mm[1]-mm[0]), abs(mm[4]-mm[3]) + abs(mm[2]-mm[1])
        if ne == 0: return mm[2], mm[2], True
        al = abs(mm[1]-mm[0])/ne; a = (1-al)*mm[1] + al*mm[2]
        if nx == 0: return a, mm[2], False
        be = abs(mm[2]-mm[1])/nx
        return a, (1-be)*mm[2] + be*mm[3], False
    def f(i, t):
        a, c, straight = slopes(i); d = t - x[i]; k = h[i]; s = e[i+2]
        if straight: return y[i] + s*d
        return y[i] + d*(a + d*((3*s-2*a-c)/k + d*(a+c-2*s)/k**2))
    return f

def o_interp(x, y, xo, typ, below, above):
    """one profile"""
    ok = np.isfinite(x) & np.isfinite(y); x, y = np.array(x, float)[ok], np.array(y, float)[ok]
    if len(x) < MIN[typ]: return np.full(len(xo), nan)
    o = np.argsort(x); x, y = x[o], y[o]
    if typ == 'linear': f = lambda i, t: y[i] + (y[i+1]-y[i])*(t-x[i])/(x[i+1]-x[i])
    elif typ == 'polynomial': f = lambda i, t: sum(y[k]*np.prod([(t-x[j])/(x[k]-x[j]) for j in range(len(x)) if j != k]) for k in range(len(x)))
    elif typ.startswith('cspline'): f = spline(x, y, typ.endswith('periodic'))
    else: f = akima(x, y, typ.endswith('periodic'))
    out = np.full(len(xo), nan)
    for k, t in enumerate(xo):
        if np.isnan(t): continue
        if t < x[0]: out[k] = y[0] + below*(t-x[0])
        elif t > x[-1]: out[k] = y[-1] + above*(t-x[-1])
        else: out[k] = f(min(max(np.searchsorted(x, t, 'right')-1, 0), len(x)-2), t)
    return out

def o_field(x, y, xo, typ, below=nan, above=nan):
    """along the last axis, all with the same leading axes"""
    lead = y.shape[:-1]; out = np.empty(lead + (xo.shape[-1],))
    for i in np.ndindex(*lead): out[i] = o_interp(x[i], y[i], xo[i], typ, below, above)
    return out

def targets(x):
    s = np.sort(x)
    return np.concatenate([[s[0]-2, s[0]-.25], s, (s[:-1]+s[1:])/2, s[:-1]+.3*np.diff(s), [s[-1]+.5, s[-1]+4]])

def run(case, rec):
    import warnings; warnings.simplefilter('ignore')
    with np.errstate(all='ignore'): globals()[case[0]](case, rec)

def per(y, typ, axis=-1):
    """periodic types need equal ends"""
    if typ.endswith('periodic'):
        y = np.moveaxis(y.copy(), axis, -1); y[..., -1] = y[..., 0]; y = np.moveaxis(y, -1, axis)
    return y

def line(case, rec):
    import pygeode as pyg
    _, typ, n, dec = case
    x = np.array(X[:n])[::-1 if dec else 1]; key = typ
    a = pyg.Lat(x)
    T = targets(x)
    orders = dict(up=np.sort(np.unique(T)), down=np.sort(np.unique(T))[::-1], mixed=np.concatenate([T[::2], T[1::2][::-1]]))
    datas = dict(linear=3 - .5*x, const=0*x + 2, generic=per(ref.data((n,)) % 89 + 0., typ))
    for dn, d in datas.items():
        per_ok = not typ.endswith('periodic') or dn != 'linear'
        for gaps in range(2**n if dn == 'generic' and not typ.endswith('periodic') else 1):
            y = np.where([(gaps >> i) & 1 for i in range(n)], nan, d)
            v = ref.var((a,), y, 'mem', name='t')
            if typ == 'cspline_periodic' and n == 2: continue
            for on, xo in orders.items():
                if gaps and on == 'down': continue
                b = pyg.Lat(xo)
                for lo, hi in SLOPES if not gaps or gaps == 1 else SLOPES[:1]:
                    g, err = ref.attempt(lambda: v.interpolate('lat', b, interp_type=typ, d_below=lo, d_above=hi).get()); rec.step()
                    if per_ok:
                        w = o_interp(x, y, xo, typ, lo, hi); rec.state(typ, w)
                        rec.check(err is None and ref.same(g, w, 1e-8, 1e-7), lambda: '%s of %s at %s to %s, slopes %s: %r %s' % (typ, y, x, xo, (lo, hi), err, ref.diffmsg('', g, w)), key)
                    if err is not None or n < MIN[typ] or gaps: continue
                    on_pt = np.isin(xo, x)
                    rec.check(np.allclose(g[on_pt], [y[list(x).index(t)] for t in xo[on_pt]]), lambda: '%s of %s at %s does not return the data: %s' % (typ, y, x, g), key)
                    if dn == 'linear' and per_ok: rec.check(np.allclose(g[(xo >= x.min()) & (xo <= x.max())], (3 - .5*xo)[(xo >= x.min()) & (xo <= x.max())]), lambda: '%s of linear data: %s' % (typ, g), key)
                    if dn == 'const': rec.check(np.allclose(g[(xo >= x.min()) & (xo <= x.max())], 2), lambda: '%s of constant data: %s' % (typ, g), key)

def order(case, rec):
    """input that is neither rising nor falling is refused, never silently mangled"""
    import pygeode as pyg
    _, typ, n = case
    for p in list(itertools.permutations(range(n))) + [(0, 0, 1, 2)[:n], (0, 1, 1, 2)[:n], (0, 1, 2, 2)[:n], (2, 1, 0, 0)[:n], (1, 1, 0, 0)[:n], (1,)*n]:
        x = np.array([X[i] for i in p]); y = per(ref.data((n,)) % 89 + 0., typ)
        v = ref.var((pyg.Lat(x),), y, 'mem')
        xo = np.array([.5, 1.5, 2.7])
        g, err = ref.attempt(lambda: v.interpolate('lat', pyg.Lat(xo), interp_type=typ).get()); rec.step(); rec.state(typ, p)
        if n < MIN[typ]: rec.check(err is None and np.isnan(g).all(), lambda: '%s of %d points: %r %s' % (typ, n, err, g), 'order')
        elif (np.diff(x) > 0).all() or (np.diff(x) < 0).all(): rec.check(err is None, lambda: '%s at %s raises %r' % (typ, x, err), 'order')
        else: rec.check(isinstance(err, ValueError), lambda: '%s at %s: %r %s' % (typ, x, err, g), 'order')

def axes(lay, a):
    import pygeode as pyg
    shape, pos = layouts()[lay]
    oth = iter([pyg.Pres([1000., 300., 100.]), pyg.Lon([0., 90., 180.])])
    return tuple(a if k is None else next(oth).slice[:k] for k in shape), pos

def compare(rec, r, inax, pos, b, want, what, key, tol=1e-8):
    """by axis name: `want` has the new axis last, the others in input order"""
    names = [x.name for i, x in enumerate(inax) if i != pos] + [b.name]
    if not rec.check(sorted(x.name for x in r.axes) == sorted(names), lambda: '%s: axes %s' % (what, r.axes), key): return
    o = [names.index(x.name) for x in r.axes]
    w = np.transpose(want, o)
    rec.check(r.dtype == np.dtype('d') and r.shape == w.shape and all(x == (b if x.name == b.name else [y for y in inax if y.name == x.name][0]) for x in r.axes), lambda: '%s: axes %s, shape %s, type %s' % (what, r.axes, r.shape, r.dtype), key)
    def one(sl):
        g, err = ref.attempt(lambda: r.slice[sl].get()); rec.step()
        ww = w
        for i, s in enumerate(sl): ww = np.take(ww, np.arange(w.shape[i])[s], axis=i)
        rec.check(err is None and ref.same(g, ww, tol, tol*100), lambda: '%s %s: %r %s' % (what, sl, err, ref.diffmsg('', g, ww)), key)
    full = (slice(None),)*w.ndim
    one(full)
    for i in range(w.ndim):
        for s in [[k] for k in range(w.shape[i])] + [slice(None, None, -1), slice(1, None), [w.shape[i]-1, 0]]:
            if len(np.arange(w.shape[i])[s]): one(full[:i] + (s,) + full[i+1:])
    one((slice(None, None, -1),)*w.ndim); one((slice(-1, None),)*w.ndim)
    rec.state(want)

def lay(case, rec):
    import pygeode as pyg
    _, typ, li, store, dt = case
    n = 6
    for dec in (0, 1):
        x = np.array(X[:n])[::-1 if dec else 1]
        a = pyg.Lat(x)
        ax, pos = axes(li, a); shape = tuple(len(q) for q in ax)
        d = per((ref.data(shape) % 89), typ, pos).astype(dt)
        v = ref.var(ax, d, store, name='t', atts={'k': 1})
        xo = np.array([4., -1., 2.5, 9., 10., .1])
        m = np.moveaxis(d, pos, -1)
        want = o_field(np.broadcast_to(x, m.shape), m, np.broadcast_to(xo, m.shape[:-1] + xo.shape), typ)
        for tr in (True, False):
            for b in (pyg.Lat(xo), pyg.Height(xo) if li == 0 else pyg.NamedAxis(xo, 'b')):
                r, err = ref.attempt(lambda: v.interpolate('lat', b, interp_type=typ, transpose=tr))
                what = '%s of %s %s axis %d to %s, transpose %s (%s)' % (typ, dt, shape, pos, b.name, tr, store)
                if not rec.check(err is None, lambda: '%s raises %r' % (what, err), typ + '-lay'): continue
                compare(rec, r, ax, pos, b, want, what, typ + '-lay', 1e-5 if dt == 'float32' else 1e-8)

def named(case, rec):
    """several axes of one type"""
    import pygeode as pyg
    typ = case[1]; x = np.array(X[:6])
    for pos in range(3):
        ax = [pyg.NamedAxis([1., 2.], 'p'), pyg.NamedAxis([1., 2., 3.], 'q')]; ax.insert(pos, pyg.NamedAxis(x, 'r'))
        d = per(ref.data(tuple(len(q) for q in ax)) % 89 + 0., typ, pos)
        v = ref.var(ax, d, 'getvalues', name='t'); xo = np.array([4., -1., 2.5]); b = pyg.NamedAxis(xo, 'r'); m = np.moveaxis(d, pos, -1)
        want = o_field(np.broadcast_to(x, m.shape), m, np.broadcast_to(xo, m.shape[:-1] + xo.shape), typ)
        for tr in (True, False):
            r, err = ref.attempt(lambda: v.interpolate('r', b, interp_type=typ, transpose=tr))
            if not rec.check(err is None, lambda: '%s of three named axes (%d), transpose %s: %r' % (typ, pos, tr, err), 'named'): continue
            compare(rec, r, ax, pos, b, want, '%s of three named axes (%d), transpose %s' % (typ, pos, tr), 'named')

def field(case, rec):
    """coordinate fields: the profiles run in different directions and have gaps"""
    import pygeode as pyg
    _, typ, li, store = case
    n = 6
    a = pyg.Lat(np.arange(n)*1.)
    ax, pos = axes(li, a); shape = tuple(len(q) for q in ax); nd = len(ax)
    lead = shape[:pos] + shape[pos+1:]
    rest = [q for i, q in enumerate(ax) if i != pos]
    d = per(ref.data(shape) % 89 + 0., typ, pos); m = np.moveaxis(d, pos, -1)
    v = ref.var(ax, d, store, name='t')
    xo = np.array([4., -1., 2.5, 9.])
    b = pyg.Height(xo)
    key = typ + '-field'
    def build(kind, sub):
        """coordinate field on the axes `sub` (positions in rest) and the input axis, as an array over all"""
        f = np.empty(tuple(len(rest[i]) for i in sub) + (n,))
        for c, i in enumerate(np.ndindex(*f.shape[:-1])):
            x = np.array(X[:n]) + .125*c
            if kind == 'alt' and c % 2 or kind == 'dec' or kind == 'first' and c == 0: x = x[::-1]
            if kind == 'gap' and c == 0: x = np.full(n, nan)
            if kind == 'short' and c == 0: x = np.where(np.arange(n) == 3, x, nan)
            if kind == 'holes': x = np.where(np.arange(n) == (c % n), nan, x[::-1] if c % 2 else x)
            f[i] = x
        return f
    def spread(f, sub):
        g = f.reshape([len(rest[i]) if i in sub else 1 for i in range(len(rest))] + [f.shape[-1]])
        return np.broadcast_to(g, lead + (f.shape[-1],))
    subs = [c for r in range(len(rest)+1) for c in itertools.combinations(range(len(rest)), r)]
    for sub in subs:
        for kind in ('inc', 'dec', 'alt', 'first', 'gap', 'short', 'holes'):
            if typ.endswith('periodic') and kind in ('short', 'holes'): continue
            f = build(kind, sub)
            # the field in every order of its axes
            for perm in itertools.permutations(range(len(sub)+1)):
                fa = [rest[i] for i in sub] + [a]
                inx = ref.var([fa[i] for i in perm], np.transpose(f, perm), store, name='z')
                if perm != tuple(range(len(perm))) and kind not in ('alt', 'holes'): continue
                for osub in ((),) if perm != tuple(range(len(perm))) else subs:
                    of = np.empty(tuple(len(rest[i]) for i in osub) + (len(xo),))
                    for c, i in enumerate(np.ndindex(*of.shape[:-1])): of[i] = xo + .25*c
                    outx = ref.var([rest[i] for i in osub] + [b], of, store, name='zo') if osub else None
                    for lo, hi in SLOPES[:1] if osub else SLOPES[::3]:
                        want = o_field(spread(f, sub), m, spread(of, osub), typ, lo, hi)
                        what = '%s with a %s field on %s (order %s), targets on %s, slopes %s of %s axis %d (%s)' % (typ, kind, sub, perm, osub, (lo, hi), shape, pos, store)
                        r, err = ref.attempt(lambda: v.interpolate('lat', b, inx=inx, outx=outx, interp_type=typ, d_below=lo, d_above=hi))
                        if not rec.check(err is None, lambda: '%s raises %r' % (what, err), key): continue
                        compare(rec, r, ax, pos, b, want, what, key)

def refuse(case, rec):
    import pygeode as pyg
    a, y = pyg.Lat([0., 1., 5.]), pyg.Lon([0., 90.])
    v = ref.var((a, y), ref.data((3, 2)), 'mem', name='t'); b = pyg.Lat([.5, 2.])
    other = ref.var((a, pyg.Pres([1., 2.])), np.ones((3, 2)), 'mem'); mism = ref.var((a, pyg.Lon([0., 91.])), np.ones((3, 2)), 'mem')
    for what, f in dict(type=lambda: v.interpolate('lat', b, interp_type='cubic'), axis=lambda: v.interpolate('pres', b), foreign=lambda: v.interpolate('lat', b, inx=other), grid=lambda: v.interpolate('lat', b, inx=mism),
                        noin=lambda: v.interpolate('lat', b, inx=ref.var((y,), np.ones(2), 'mem')), noout=lambda: v.interpolate('lat', b, outx=ref.var((y,), np.ones(2), 'mem'))).items():
        g, err = ref.attempt(lambda: f().get()); rec.step(); rec.state(what)
        rec.check(err is not None and not isinstance(err, SystemError), lambda: 'invalid %s: %r %s' % (what, err, g), 'refuse')
