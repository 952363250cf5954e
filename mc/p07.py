"""P07: operands on different grids are aligned by coordinate."""
import itertools
import numpy as np
from . import ref

BOUND = {
 'quick': 'every ordered pair of the 64 non-empty ordered subsets of 4 coordinates on 14 axis kinds / coordinate families (including spacings of 4e-7 relative, magnitudes of 1e-9, '
          'calendar time in 3 calendars with different units and reference dates, parent/child classes, auxiliary arrays, stations); partly overlapping offsets; 2-D pairs of two axes '
          '(all 15x15 subset pairs, both dimension orders); triples; repeated coordinates up to length 3; climatological against full time axes; every selection of aligned results',
 'thorough': 'as quick with all families x all storage protocols x memory limits 1,2,3 and ordered subsets of 5 coordinates for the plain family'}

FAM = {   # name -> 5 coordinate values
 'plain': [5., 15., 25., 35., 45.], 'uneven': [1e-3, 1., 10., 1000., 1e5], 'neg': [-90., -10., 0., 10., 90.], 'julian': [2450000., 2450001., 2450002., 2450003., 2450004.],
 'small': [1e-9, 2e-9, 3e-9, 4e-9, 5e-9], 'zero': [0., 1e-7, 1., 2., 3.], 'int': [1, 2, 3, 10, 11], 'f32': [.1, .2, .3, .4, .5], 'secs': [1.6e9, 1.6e9+1, 1.6e9+2, 1.6e9+3, 1.6e9+4]}
KINDS = ['x:plain', 'x:julian', 'x:small', 'x:zero', 'x:uneven', 'x:int', 'x:f32', 'foo:secs', 'lat:neg', 'lon:plain', 'pres:uneven', 'std', 'm365', 'yearless', 'station', 'aux:plain', 'gen:plain']

def mk(kind, sel, alt=False):
    """the axis of a kind holding coordinates number `sel` (in that order); alt: the same coordinates expressed differently"""
    import pygeode as pyg
    if ':' in kind:
        c, fam = kind.split(':')
        v = np.array(FAM[fam])[list(sel)]
        if fam == 'f32': v = v.astype('f4')
        if c == 'aux': return pyg.XAxis(v, height=np.array([3., 1., 4., 1., 5.])[list(sel)])
        if c == 'gen': return pyg.Axis(v, name='gen')
        
        cls = dict(foo=lambda v: pyg.NamedAxis(v, 'foo'), x=pyg.XAxis, lat=pyg.Lat, lon=pyg.Lon, pres=pyg.Pres)[c]
        if alt == 2: cls = dict(x=pyg.Lon, lat=pyg.YAxis, lon=pyg.XAxis, pres=pyg.ZAxis)[c]
        if fam in ('julian', 'secs'):      # closer together than the default tolerance: the full axis knows the spacing
            return cls(np.array(FAM[fam])).slice[(list(sel),)]
        if alt == 1: v = (v.astype('d')*(1 + 1e-12)) if fam != 'int' else v
        return cls(v)
    if kind == 'station': return pyg.axis.Station(station=np.array(['aa', 'b', 'ccc', 'dd', 'e'])[list(sel)])
    cls = dict(std=pyg.StandardTime, m365=pyg.ModelTime365, yearless=pyg.Yearless)[kind]
    days = np.array([0., 1.5, 40., 60., 366.])[list(sel)] if kind != 'yearless' else np.array([0., .5, 3., 10., 11.])[list(sel)]
    start = dict(year=2000, month=1, day=1) if kind != 'yearless' else dict(hour=0)
    if alt and kind != 'yearless':
        return cls((days + (366 if kind == 'std' else 365))*24, units='hours', startdate=dict(year=1999, month=1, day=1)) if alt == 1 and kind == 'm365' else \
               cls((days + 365)*24, units='hours', startdate=dict(year=1999, month=1, day=1)) if kind == 'std' else cls((days+365)*24., units='hours', startdate=dict(year=1999, month=1, day=1))
    return cls(days, units='days', startdate=start)

def subs(n, rep=False):
    if rep: return [c for r in (1, 2, 3) for c in itertools.product(range(n), repeat=r)]
    return [c for r in range(1, n+1) for c in itertools.permutations(range(n), r)]

def coords(kind, ax, table):
    """which of the table's coordinates an axis holds"""
    if kind == 'station':
        return [['aa', 'b', 'ccc', 'dd', 'e'].index(str(s)) for s in ax.auxarrays['station']]
    if ':' in kind:
        t = np.array(FAM[kind.split(':')[1]])
        return [int(np.argmin(np.abs(t - v))) for v in ax.values]
    key = lambda a, i: tuple(int(a.auxarrays[f][i]) for f in sorted(a.auxarrays))
    tab = {key(table, i): i for i in range(len(table))}
    return [tab[key(ax, i)] for i in range(len(ax))]

def cases(tier):
    out = []
    for kind in KINDS:
        for alt in (0, 1, 2):
            if alt == 2 and kind.split(':')[0] not in ('x', 'lat', 'lon', 'pres'): continue
            if alt == 1 and kind in ('station', 'yearless', 'aux:plain'): continue
            for part in range(4): out.append(['1d', kind, alt, part, 0])
    if tier == 'thorough':
        for kind in KINDS:
            for lim in (1, 2, 3):
                for part in range(4): out.append(['1d', kind, 0, part, lim])
    for kind in ('x:plain', 'foo:secs', 'std', 'pres:uneven'):
        for part in range(2): out.append(['rep', kind, part])
    for k1, k2 in (('x:plain', 'pres:uneven'), ('lat:neg', 'std'), ('foo:secs', 'x:julian'), ('lon:plain', 'station')):
        for part in range(8): out.append(['2d', k1, k2, part])
    for kind in ('x:plain', 'std'):
        for part in range(8): out.append(['3op', kind, part])
    out.append(['clim'])
    out.append(['offset'])
    out.append(['class'])
    return out

def decide(rec, what, f, kind, a, b, ax, bx, da, db, table, key, full=False):
    """f: () -> result of a-b on 1-D operands holding coordinates a, b with data da, db"""
    A, B = set(a), set(b)
    u, err = ref.attempt(f)
    rec.step()
    if not (A <= B or B <= A):
        rec.state('refused', kind)
        # nothing to align on: the operation has to be refused
        if err is None:
            rec.fail('%s: neither grid contains the other, yet the result is on %s' % (what, [x.values for x in u.axes]), key + ':partial')
        return
    if err is not None:
        return rec.fail('%s was refused: %r' % (what, err), key + ':refused')
    if not rec.check(u.naxes == 1, lambda: '%s has axes %s' % (what, u.axes), key): return
    got = coords(kind, u.axes[0], table)
    small = A if A <= B else B
    if not rec.check(set(got) == small, lambda: '%s is defined on coordinates %s, not %s' % (what, got, sorted(small)), key + ':grid'): return
    g = u.get()
    rec.state(kind, tuple(got))
    want = np.array([da[a.index(c)] - db[b.index(c)] for c in got])
    rec.check(len(got) == len(small) and ref.same(g, want), lambda: ref.diffmsg(what, g, want), key)
    if full:
        n = len(got)
        for sl in [slice(None, None, -1), slice(0, None, 2)] + [[i] for i in range(n)] + [[n-1, 0]]:
            rec.step()
            rec.check(ref.same(u.slice[(sl,)].get(), want[sl]), lambda: ref.diffmsg('%s sliced %s' % (what, sl), u.slice[(sl,)].get(), want[sl]), key + ':select')

def run(case, rec):
    t = case[0]
    base = np.array([2., 3., 5., 7., 11.])
    if t == '1d':
        _, kind, alt, part, lim = case
        S = subs(4)
        table = mk(kind, range(5))
        mem = {}
        with ref.chunks(lim):
            for i, a in enumerate(S):
                if i % 4 != part: continue
                ax = mk(kind, a); va = ref.var([ax], base[list(a)]*100, ref.STORES[i % 3])
                for j, b in enumerate(S):
                    if j not in mem:
                        bx = mk(kind, b, alt); mem[j] = ref.var([bx], base[list(b)], ref.STORES[(j+1) % 3])
                    vb = mem[j]
                    da, db = base[list(a)]*100, base[list(b)]
                    what = '%s (other form %d): on %s minus on %s' % (kind, alt, list(a), list(b))
                    decide(rec, what, lambda: va - vb, kind, a, b, ax, vb.axes[0], da, db, table, 'align', full=(i+j) % 7 == 0)
                    if alt: decide(rec, what + ' (other operand first)', lambda: 0 - (vb - va), kind, a, b, ax, vb.axes[0], da, db, table, 'align')
    elif t == 'rep':
        # repeated coordinates: whichever elements are paired, their coordinates are equal
        _, kind, part = case
        table = mk(kind, range(5))
        S = subs(3, rep=True)
        for i, a in enumerate(S):
            if i % 2 != part: continue
            da = np.array([c*100. + 10*k for k, c in enumerate(a)])
            va = ref.var([mk(kind, a)], da)
            for b in S:
                db = np.array([c + .1*k for k, c in enumerate(b)])
                vb = ref.var([mk(kind, b)], db, 'getview')
                u, err = ref.attempt(lambda: va - vb)
                rec.step()
                A, B = set(a), set(b)
                what = '%s: on %s minus on %s' % (kind, list(a), list(b))
                if not (A <= B or B <= A):
                    rec.check(err is not None, lambda: '%s was accepted' % what, 'repeat:partial'); continue
                if err is not None: continue
                g, err = ref.attempt(u.get)
                if err is not None: rec.fail('%s: %r' % (what, err), 'repeat:read'); continue
                got = coords(kind, u.axes[0], table)
                ok = len(got) == len(g) and set(got) <= A & B
                for c, x in zip(got, g):
                    ok = ok and any(abs(x - (da[p] - db[q])) < 1e-9 for p in range(len(a)) for q in range(len(b)) if a[p] == c == b[q])
                rec.state(kind, tuple(got), a, b)
                rec.check(ok, lambda: '%s: coordinates %s values %s' % (what, got, g), 'repeat')
    elif t == '2d':
        _, k1, k2, part = case
        S = [c for r in (1, 2, 3) for c in itertools.permutations(range(3), r)]
        n = 0
        t1, t2 = mk(k1, range(5)), mk(k2, range(5))
        full = np.add.outer(base*1000, base[::-1]*10)
        full2 = np.add.outer(base[::-1], base*.1)
        for a1 in S:
            for a2 in S:
                n += 1
                if n % 8 != part: continue
                va = ref.var([mk(k1, a1), mk(k2, a2)], full[np.ix_(a1, a2)], ref.STORES[n % 3])
                for b1 in S[::2]:
                    for b2 in S[1::2]:
                        flip = (sum(b1) + len(b2)) % 2
                        db = full2[np.ix_(b1, b2)]
                        bx = [mk(k1, b1), mk(k2, b2)]
                        vb = ref.var(bx if not flip else bx[::-1], db if not flip else db.T, ref.STORES[(n+1) % 3])
                        ok = all(set(p) <= set(q) or set(q) <= set(p) for p, q in ((a1, b1), (a2, b2)))
                        u, err = ref.attempt(lambda: va - vb)
                        what = '%s x %s: %s,%s minus %s,%s (flip %d)' % (k1, k2, a1, a2, b1, b2, flip)
                        rec.step()
                        if not ok:
                            rec.check(err is not None, lambda: '%s was accepted' % what, '2d:partial'); continue
                        if not rec.check(err is None, lambda: '%s: %r' % (what, err), '2d:refused'): continue
                        if not rec.check(u.naxes == 2, lambda: '%s: axes %s' % (what, u.axes), '2d'): continue
                        sw = u.axes[0].name != t1.name
                        c1 = coords(k1, u.axes[1 if sw else 0], t1); c2 = coords(k2, u.axes[0 if sw else 1], t2)
                        ok = set(c1) == set(a1) & set(b1) and set(c2) == set(a2) & set(b2)
                        want = (full - full2)[np.ix_(c1, c2)]
                        g = u.get(); g = g.T if sw else g
                        rec.state(k1, k2, tuple(c1), tuple(c2), sw)
                        rec.check(ok and ref.same(g, want), lambda: what + ' on %s,%s: ' % (c1, c2) + ref.diffmsg('', g, want), '2d')
    elif t == '3op':
        import pygeode as pyg
        _, kind, part = case
        S = [c for r in (1, 2, 3) for c in itertools.permutations(range(3), r)]
        table = mk(kind, range(5))
        n = 0
        for a in S:
            for b in S:
                n += 1
                if n % 8 != part: continue
                for c in S:
                    A, B, C = map(set, (a, b, c))
                    vs = [ref.var([mk(kind, s)], base[list(s)]*f, ref.STORES[k]) for k, (s, f) in enumerate(((a, 1), (b, 10), (c, 100)))]
                    what = '%s: %s+%s+%s' % (kind, a, b, c)
                    for f in (lambda: pyg.vsum(*vs), lambda: vs[0] + (vs[1] + vs[2])):
                        u, err = ref.attempt(f)
                        rec.step()
                        if err is not None:
                            rec.check(not (A <= B <= C or A >= B >= C), lambda: '%s refused: %r' % (what, err), '3op:refused'); continue
                        g, err = ref.attempt(u.get)
                        if err is not None: rec.fail('%s: %r' % (what, err), '3op:read'); continue
                        got = coords(kind, u.axes[0], table)
                        rec.state(kind, tuple(got))
                        rec.check(set(got) == A & B & C and ref.same(g, base[got]*111), lambda: '%s on %s: %s' % (what, got, g), '3op')
    elif t == 'clim':
        # a climatological axis (no year) against a full one: matched by the fields they share, for every order of either
        import pygeode as pyg
        for cls in (pyg.StandardTime, pyg.ModelTime365):
            for order in itertools.permutations(range(3)):
                months = np.array([2, 5, 9])[list(order)]
                ct = cls(month=months, units='days', startdate=dict(year=1, month=1, day=1)) if False else cls(values=None, units='days', month=months)
                c = ref.var([ct], months*1000., 'mem')
                for perm in itertools.permutations(range(4)):
                    yy = np.array([2000, 2000, 2001, 2003])[list(perm)]; mm = np.array([2, 9, 5, 2])[list(perm)]
                    ft = cls(values=None, units='days', year=yy, month=mm, startdate=dict(year=2000, month=1))
                    v = ref.var([ft], yy*1., 'getview')
                    for nm, u in (('full-clim', v - c), ('clim+full', 0 - (c - v))):
                        rec.step(); rec.state(order, perm)
                        ok = len(u.axes) == 1 and ref.same(u.axes[0].year, yy) and ref.same(u.axes[0].month, mm)
                        rec.check(ok and ref.same(u.get(), yy - mm*1000.), lambda: ref.diffmsg('%s %s: %s months %s, times %s-%s' % (cls.__name__, nm, u.axes, months, yy, mm), u.get(), yy - mm*1000.), 'clim')
    elif t == 'offset':
        # values displaced by a fraction of the spacing are different coordinates; by rounding errors they are the same
        import pygeode as pyg
        for fam in FAM:
            if fam in ('int', 'zero'): continue
            v = np.array(FAM[fam])
            dv = np.diff(v).min()
            for cls in (pyg.XAxis, lambda v: pyg.NamedAxis(v, 'foo'), lambda v: pyg.Axis(v, name='g')):
                a = cls(v); va = ref.var([a], base)
                for frac in (.5, .25, 1, -.5, 2, 1e-13, -1e-13):
                    for order in (1, -1):
                        w = v + frac*(dv if abs(frac) > 1e-3 else abs(v))
                        b = cls(w[::order]); vb = ref.var([b], base[::order]*10)
                        u, err = ref.attempt(lambda: (va - vb).get())
                        rec.step()
                        if abs(frac) < 1e-3: rec.check(err is None and ref.same(sorted(u), sorted(base - base*10)), lambda: '%s displaced by rounding error: %r' % (fam, err or u), 'offset:same')
                        elif not (fam in ('plain', 'julian', 'secs', 'small', 'f32') and abs(frac) in (1, 2)):
                            rec.check(err is not None, lambda: '%s displaced by %s of the spacing: combined %s' % (fam, frac, u), 'offset:different')
                        else: rec.check(err is not None, lambda: '%s displaced by %s steps: combined %s' % (fam, frac, u), 'offset:partial')
    elif t == 'class':
        # axes of unrelated classes or names never align: the result has both
        import pygeode as pyg
        v = np.array([1., 2., 3.])
        mk_ = {'lat': lambda: pyg.Lat(v), 'lon': lambda: pyg.Lon(v), 'z': lambda: pyg.ZAxis(v), 'foo': lambda: pyg.NamedAxis(v, 'foo'), 'bar': lambda: pyg.NamedAxis(v, 'bar'),
               'std': lambda: pyg.StandardTime(v, units='days', startdate=dict(year=2000, month=1, day=1)), 'm365': lambda: pyg.ModelTime365(v, units='days', startdate=dict(year=2000, month=1, day=1)),
               'station': lambda: pyg.axis.Station(station=np.array(['a', 'b', 'c']))}
        for p, q in itertools.permutations(mk_, 2):
            a = ref.var([mk_[p]()], np.array([1., 2., 4.])); b = ref.var([mk_[q]()], np.array([10., 20., 40.]), 'getview')
            u = a + b
            rec.step(); rec.state(p, q)
            ok = u.shape == (3, 3)
            rec.check(ok and ref.same(u.get(), np.add.outer([1., 2., 4.], [10., 20., 40.])), lambda: '%s + %s has shape %s' % (p, q, u.shape), 'class')
