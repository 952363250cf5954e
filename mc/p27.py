"""P27: grid constructors give the documented nodes and exact weights."""
import itertools
import numpy as np
from . import ref

BOUND = {
 'quick': 'gausslat of every size 1 to 96 and 128, 160, 192, 256, 320 in both orders against every monomial below degree 2n (n up to 48) and Legendre polynomial, independent nodes; regularlat and regularlon of every size 1 to 48, strides +-1, every option, '
          'origins on and off the grid and negative; rotatelon of regular, irregular, reversed, shifted and duplicated grids of 1 to 8 longitudes to every origin on, halfway between and around the grid points from -720 to 720, with and without duplication, '
          'as only, first, middle and last axis, 3 storage protocols, every single longitude, pair and slice read alone',
 'thorough': 'as quick with sizes up to 256 and grids of up to 12 longitudes'}

def cases(tier):
    N = 256 if tier == 'thorough' else 96
    out = [['gauss', n] for n in list(range(1, N+1)) + [128, 160, 192, 256, 320]]
    out += [['lat', n] for n in range(1, 49)] + [['lon', n] for n in range(1, 49)]
    for n in range(1, 13 if tier == 'thorough' else 9):
        for g in ('reg', 'irr', 'rev', 'east', 'west', 'dup', 'third'): out.append(['rot', g, n])
    for lay in range(5):
        for s in ref.STORES: out.append(['lay', lay, s])
    return out

def run(case, rec):
    import warnings; warnings.simplefilter('ignore')
    globals()[case[0]](case, rec)

def legendre(n, x):
    p, q = np.ones_like(x), np.zeros_like(x)
    for k in range(n): p, q = ((2*k+1)*x*p - k*q)/(k+1), p
    return p

def gauss(case, rec):
    import pygeode as pyg
    _, n = case
    for order in (1, -1):
        a, err = ref.attempt(lambda: pyg.gausslat(n, order)); rec.step()
        if not rec.check(err is None, lambda: 'gausslat(%d, %d) raises %r' % (n, order, err), 'gauss'): continue
        x, w = np.sin(np.radians(np.array(a.values, float))), np.array(a.weights, float)
        rec.state(n, order)
        ok = len(a) == n and type(a) is pyg.Lat and len(w) == n and (n == 1 or (np.diff(a.values)*order > 0).all()) and np.allclose(a.values, -a.values[::-1], atol=1e-10) and (w > 0).all()
        rec.check(ok, lambda: 'gausslat(%d, %d): latitudes %s, weights %s' % (n, order, a.values, w), 'gauss')
        if not ok: continue
        # no polynomial of degree n other than Legendre's vanishes at the nodes
        rec.check(np.abs(legendre(n, x)).max() < 1e-10*max(n, 1), lambda: 'gausslat(%d): nodes are no roots of the Legendre polynomial: %s' % (n, legendre(n, x)), 'gauss')
        lx, lw = np.polynomial.legendre.leggauss(n)
        rec.check(np.allclose(x, lx[::order], atol=1e-11, rtol=0) and np.allclose(w, lw[::order], atol=1e-11, rtol=1e-8), lambda: 'gausslat(%d, %d): nodes or weights differ from an independent computation' % (n, order), 'gauss')
        for k in range(2*n):
            if k <= 96:
                e = (w*x**k).sum() - (2./(k+1) if k % 2 == 0 else 0); rec.step()
                rec.check(abs(e) < 1e-11, lambda: 'gausslat(%d, %d): integral of x^%d is off by %g' % (n, order, k, e), 'gauss')
            e = (w*legendre(k, x)).sum() - (2. if k == 0 else 0); rec.step()
            rec.check(abs(e) < 1e-10, lambda: 'gausslat(%d, %d): integral of the Legendre polynomial %d is off by %g' % (n, order, k, e), 'gauss')
        # the weights are those used by weighted means
        v = ref.var((a,), x**2, 'mem'); g, err = ref.attempt(lambda: v.mean('lat', weights=True).get()); rec.step()
        rec.check(err is None and abs(float(g) - ((1/3.) if n > 1 else 0)) < 1e-11, lambda: 'gausslat(%d): weighted mean of sin^2: %r %s' % (n, err, g), 'gauss')

def lat(case, rec):
    import pygeode as pyg
    _, n = case
    for order in (1, -1, 2):
        for poles in (True, False):
            a, err = ref.attempt(lambda: pyg.regularlat(n, order, inc_poles=poles)); rec.step(); rec.state(n, order, poles)
            if not rec.check(err is None, lambda: 'regularlat(%d, %d, %s) raises %r' % (n, order, poles, err), 'lat'): continue
            m = n if poles else n + 2
            w = [-90 + 180.*i/(m-1) for i in range(m)] if m > 1 else [-90.]
            w = np.array(w if poles else w[1:-1])[::order]
            rec.check(type(a) is pyg.Lat and len(a) == len(w) and np.allclose(a.values, w, atol=1e-10, rtol=0) and np.allclose(a.weights, np.cos(np.radians(w)), atol=1e-12), lambda: 'regularlat(%d, %d, %s): %s %s' % (n, order, poles, a.values, a.weights), 'lat')

def lon(case, rec):
    import pygeode as pyg
    _, n = case
    for order in (1, -1, 3):
        for rep in (True, False):
            for origin in (0., -180., 17.5, 360., -720.):
                a, err = ref.attempt(lambda: pyg.regularlon(n, origin, order, rep)); rec.step(); rec.state(n, order, rep, origin)
                if not rec.check(err is None, lambda: 'regularlon(%d, %s, %d, %s) raises %r' % (n, origin, order, rep, err), 'lon'): continue
                d = n - 1 if rep else n
                w = np.array([origin + (360.*i/d if d else 0) for i in range(n)])[::order]
                rec.check(type(a) is pyg.Lon and len(a) == len(w) and np.allclose(a.values, w, atol=1e-9, rtol=0), lambda: 'regularlon(%d, %s, %d, %s): %s' % (n, origin, order, rep, a.values), 'lon')

def grid(g, n):
    if g == 'reg': return np.arange(n)*360./n
    if g == 'irr': return np.array([0., 5., 7.5, 100., 181., 260., 300., 359., 359.5, 12., 13., 14.])[:n]
    if g == 'rev': return (np.arange(n)*360./n)[::-1]
    if g == 'east': return np.arange(n)*360./n + 720.
    if g == 'west': return np.arange(n)*360./n - 180.
    if g == 'dup': return np.linspace(0., 360., n + 1)
    if g == 'third': return np.arange(n)*1/3. - .1

def near(a, b):
    """longitudes equal modulo 360"""
    d = np.abs(a - b) % 360.
    return np.minimum(d, 360. - d) < 1e-6

def judge(rec, lons, m, got, gl, origin, dup, what, key):
    """m, got: data with longitude last"""
    n = len(lons)
    if not rec.check(got.shape[-1] == n + dup, lambda: '%s: %d longitudes' % (what, got.shape[-1]), key): return
    rec.check((np.diff(gl) > -1e-9).all() and (gl[:n] > origin - 1e-6).all() and (gl[:n] < origin + 360 + 1e-6).all(), lambda: '%s: longitudes %s' % (what, gl), key)
    used = []
    for j in range(n):
        c = [i for i in range(n) if near(lons[i], gl[j]) and ref.same(got[..., j], m[..., i]) and i not in used]
        if not rec.check(c, lambda: '%s: the value at %s is not that of any unused input longitude: %s of %s' % (what, gl[j], got[..., j], m), key): return
        used.append(c[0])
    if dup:
        rec.check(abs(gl[n] - gl[0] - 360) < 1e-6 and any(near(lons[i], gl[n]) and ref.same(got[..., n], m[..., i]) for i in range(n)), lambda: '%s: duplicate of the origin at %s is %s; %s at %s' % (what, gl[n], got[..., n], got, gl), key)

def origins(lons):
    s = np.unique(np.concatenate([lons, lons + .5*180/len(lons), [0., -180., 180., 359.9, 360., -.1]]))
    return sorted(set(float(x + k) for x in s for k in (-720., -360., 0., 360.) if -720 <= x + k <= 720))

def rot(case, rec):
    import pygeode as pyg
    _, g, n = case
    lons = grid(g, n)
    d = ref.data((len(lons),)) + 0.
    if g == 'dup': d[-1] = d[0]
    v = ref.var((pyg.Lon(lons),), d, 'mem', name='t')
    for o in origins(lons):
        for dup in (False, True):
            what = 'rotatelon of %s to %s (duplicate %s)' % (lons, o, dup)
            r, err = ref.attempt(lambda: pyg.rotatelon(v, o, duplicate=dup)); rec.step()
            if not rec.check(err is None, lambda: '%s raises %r' % (what, err), 'rotate'): continue
            got, err = ref.attempt(r.get)
            if not rec.check(err is None, lambda: '%s raises %r' % (what, err), 'rotate'): continue
            rec.state(g, n, got)
            judge(rec, lons, d, got, np.array(r.lon.values), o, dup, what, 'rotate')

def lay(case, rec):
    import pygeode as pyg
    _, li, store = case
    for n in (1, 4, 5):
        for name in ('lon', 'longitude'):
            L = pyg.Lon(grid('irr', n), name=name)
            oth = [pyg.Lat([0., 5.]), pyg.Pres([1000., 300., 100.])]
            ax, pos = [((L,), 0), ((L, oth[0]), 0), ((oth[0], L), 1), ((oth[1], L, oth[0]), 1), ((oth[1], oth[0], L), 2)][li]
            d = ref.data(tuple(len(a) for a in ax)); v = ref.var(ax, d, store, name='t', atts={'k': 1})
            for o in (-100., 5., 6., 359.2):
                for dup in (False, True):
                    what = 'rotatelon of %s, longitude at %d, to %s (duplicate %s)' % (d.shape, pos, o, dup)
                    r, err = ref.attempt(lambda: pyg.rotatelon(v, o, duplicate=dup)); rec.step()
                    if not rec.check(err is None, lambda: '%s raises %r' % (what, err), 'rotate-lay'): continue
                    got, err = ref.attempt(r.get)
                    if not rec.check(err is None and r.axes[:pos] + r.axes[pos+1:] == ax[:pos] + ax[pos+1:], lambda: '%s: %r %s' % (what, err, r.axes), 'rotate-lay'): continue
                    judge(rec, np.array(L.values), np.moveaxis(d, pos, -1), np.moveaxis(got, pos, -1), np.array(r.axes[pos].values), o, dup, what, 'rotate-lay')
                    N = got.shape[pos]
                    for s in [[i] for i in range(N)] + [list(c) for c in itertools.permutations(range(N), 2)] + [slice(None, None, -1), slice(None, None, 2), slice(1, None)]:
                        if len(np.arange(N)[s]) == 0: continue
                        g, err = ref.attempt(lambda: r.slice[tuple(s if i == pos else slice(None) for i in range(len(ax)))].get()); rec.step()
                        rec.check(err is None and ref.same(g, np.take(got, np.arange(N)[s], axis=pos)), lambda: '%s [%s]: %r %s' % (what, s, err, ref.diffmsg('', g, np.take(got, np.arange(N)[s], axis=pos))), 'rotate-lay')
    w = ref.var((pyg.Lat([0., 5.]),), np.arange(2.), store)
    r, err = ref.attempt(lambda: pyg.rotatelon(w, 10.)); rec.step()
    rec.check(err is None and ref.same(r.get(), w.get()), lambda: 'rotatelon without longitudes: %r' % (err,), 'rotate-lay')
