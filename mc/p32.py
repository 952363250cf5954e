"""P32: splitting and rejoining time, and dropping leap days, keep every other sample."""
import itertools
import numpy as np
from . import ref, cal as C
from .p24 import layouts, axes, DT, reads

BOUND = {
 'quick': 'split, split then join, and join of 22 time axes (3 calendars and 2 seasonal; daily, 6-hourly, monthly, irregular, with gaps, first and last years partial, leap days, single year, single sample, descending, unsorted), 4 units, as only, first, middle and last axis, 6 data types, 3 storage protocols; '
          'every single year, day and pair read alone, slices of both axes; removeleapyears of daily, 6-hourly, irregular, descending and unsorted axes from every reference date across 6 year spans with 7 lists of days to drop and 2 target calendars; memory limits 4 and 12',
 'thorough': 'as quick with every subset of positions of axes of up to 5 samples and longer spans'}

FULL = ('year', 'month', 'day', 'hour', 'minute', 'second')
def dates(kind):
    """(calendar, fields, list of dates)"""
    cal, what = kind.split('-', 1)
    Y, M, D = [x.tolist() for x in C.walk(cal, 1999, 2003)]
    day = list(zip(Y, M, D))
    pick = {
     'feb': [d for d in day if d[1] == 2 and d[2] > 26 or d[1] == 3 and d[2] < 3],
     'gap': [d for d in day if (d[1], d[2]) in ((1, 1), (2, 28), (2, 29), (3, 1), (12, 30)) and d[0] != 2001],
     'partial': [d for d in day if d[1] in (1, 6) and d[2] in (1, 15) and (2000, 1, 2) < d < (2002, 6, 2)],
     'one': [(2000, 5, 6)],
     'oneyear': [d for d in day if d[0] == 2000 and d[2] == 3],
     'irr': [d for i, d in enumerate(day) if i*i % 97 == 3],
    }
    pick['desc'] = pick['gap'][::-1]
    pick['uns'] = pick['partial'][::2] + pick['partial'][1::2]
    if what == 'month': return cal, FULL[:2], sorted(set(d[:2] for d in day))[3:40]
    if what == 'monthgap': return cal, FULL[:2], sorted(set(d[:2] for d in day))[3:40:5]
    if what == '6h': return cal, FULL[:4], [d + (h,) for d in pick['feb'] for h in (0, 6, 18)]
    if what == 'sec': return cal, FULL, [d + (23, 59, s) for d in pick['partial'] for s in (0, 59)]
    return cal, FULL[:3], pick[what]

KINDS = [c + '-' + w for c in ('std', 'm365', 'm360') for w in ('feb', 'gap', 'partial', 'month', 'monthgap', '6h', 'irr')] + ['std-one', 'std-oneyear', 'std-desc', 'std-uns', 'm365-desc', 'm365-uns', 'm360-one', 'std-sec']
SEAS = ['std', 'm365']

def cases(tier):
    out = []
    for k in KINDS:
        for u in C.UNIT: out.append(['split', k, u])
        out += [['join', k], ['lim', k]]
    for k in SEAS:
        for u in ('days', 'hours'): out.append(['seas', k, u])
    for lay in range(len(layouts())):
        for s in ref.STORES:
            for dt in DT:
                for k in ('std-gap', 'm360-monthgap') if tier == 'quick' else ('std-gap', 'm360-monthgap', 'std-6h', 'm365-partial'): out.append(['lay', lay, s, dt, k, tier])
    for cal in ('std', 'm365', 'm360'):
        for span in range(6): out.append(['leap', cal, span, tier])
    out.append(['leapdata'])
    return out

def run(case, rec):
    import warnings; warnings.simplefilter('ignore')
    with np.errstate(all='ignore'):
        globals()[case[0]](case, rec)

def mk(kind, u='days'):
    cal, F, ds = dates(kind)
    t = C.cls(cal)(units=u, **{f: np.array([d[i] for d in ds]) for i, f in enumerate(F)})
    return t, F, ds

def table(ds):
    years = sorted(set(d[0] for d in ds)); rest = sorted(set(d[1:] for d in ds))
    return years, rest

def o_split(d, pos, ds, years, rest):
    m = np.moveaxis(d, pos, 0)
    out = np.full((len(years), len(rest)) + m.shape[1:], np.nan, d.dtype if d.dtype.kind in 'fc' else float)
    for k, x in enumerate(ds): out[years.index(x[0]), rest.index(x[1:])] = m[k]
    return np.moveaxis(out, (0, 1), (pos, pos+1))

def fields(ax, F): return [tuple(int(ax.auxarrays[f][i]) for f in F) for i in range(len(ax))]

def check_axes(rec, what, w, pos, years, rest, F, cls):
    ya, da = w.axes[pos], w.axes[pos+1]
    ok = ya.name == 'year' and [int(x) for x in ya.values] == years and isinstance(da, cls) and da.name == 'day' and set(da.auxarrays) == set(F[1:]) and fields(da, F[1:]) == rest
    rec.check(ok, lambda: '%s: axes are %r, %r' % (what, ya, da), 'split:axes')
    return ok

def split(case, rec):
    import pygeode as pyg
    from pygeode import timeutils as tu
    _, kind, u = case
    t, F, ds = mk(kind, u)
    d = ref.data((len(ds),)) + .5
    v = ref.var((t,), d, 'getview')
    w, err = ref.attempt(lambda: tu.splittimeaxis(v)); rec.step()
    if not rec.check(err is None, lambda: '%s: %r' % (kind, err), 'split'): return
    years, rest = table(ds); want = o_split(d, 0, ds, years, rest)
    if not check_axes(rec, kind, w, 0, years, rest, F, type(t)): return
    ny, nd = len(years), len(rest)
    def one(sy, sd):
        e = want[np.ix_(np.arange(ny)[sy], np.arange(nd)[sd])]
        g, err = ref.attempt(lambda: w[(sy,), (sd,)]); rec.step()
        rec.check(err is None and ref.same(g, e), lambda: ref.diffmsg('%s in %s, split, years %s days %s: %r' % (kind, u, sy, sd, err), g, e), 'split')
        rec.state(kind, e.shape)
    S = lambda n: [slice(None)] + [[i] for i in range(n)][:12] + [slice(1, None), slice(None, None, -1), slice(None, None, 2), slice(n//2, None), [0, n-1], [n-1, 0]]
    for sy in S(ny):
        for sd in S(nd)[:: 1 if nd < 12 else 2]:
            if len(np.arange(ny)[sy]) and len(np.arange(nd)[sd]): one(sy, sd)
    # and back
    j, err = ref.attempt(lambda: tu.jointimeaxes(w)); rec.step()
    if not rec.check(err is None, lambda: '%s split and joined: %r' % (kind, err), 'rejoin'): return
    jf = fields(j.time, F)
    exp = [(y,) + r for y in years for r in rest]
    if not rec.check(type(j.time) is type(t) and jf == exp, lambda: '%s split and joined: dates %s..' % (kind, jf[:5]), 'rejoin:axis'): return
    e = want.reshape(-1)
    for sl in (slice(None), slice(1, None), slice(None, None, 3), slice(len(exp)//2, len(exp)), slice(None, None, -1), [0, len(exp)-1]) + tuple([i] for i in range(min(len(exp), 30))):
        if not len(np.arange(len(exp))[sl]): continue
        g, err = ref.attempt(lambda: j[(sl,)]); rec.step()
        rec.check(err is None and ref.same(g, e[sl]), lambda: ref.diffmsg('%s in %s split, joined and read at %s: %r' % (kind, u, sl, err), g, e[sl]), 'rejoin')
    # the original samples, found by their dates
    for k in range(0, len(ds), max(1, len(ds)//12)):
        x = ds[k]
        g, err = ref.attempt(lambda: j(**dict(zip(F, x))).get()); rec.step()
        rec.check(err is None and np.size(g) == 1 and np.isclose(np.ravel(g)[0], d[k]), lambda: '%s split and joined: value at %s is %s %r, expected %s' % (kind, x, g, err, d[k]), 'rejoin:date')

def join(case, rec):
    """joining axes that were built by hand: all years, any order of years and days"""
    import pygeode as pyg
    from pygeode import timeutils as tu
    _, kind = case
    cal, F, ds = dates(kind)
    years, rest = table(ds)
    for yo in {tuple(years), tuple(years[::-1]), tuple(years[1:] + years[:1])}:
        for ro in {tuple(rest[:6]), tuple(rest[:6][::-1]), tuple(rest[2:5] + rest[:2])}:
            if not ro: continue
            da = C.cls(cal)(units='days', **{f: np.array([r[i] for r in ro]) for i, f in enumerate(F[1:])}).rename('day')
            ya = pyg.NamedAxis(np.array(yo), 'year')
            d = ref.data((len(yo), len(ro))) + .25
            v = ref.var((ya, da), d, 'getview')
            j, err = ref.attempt(lambda: tu.jointimeaxes(v)); rec.step()
            key = 'join' if list(yo) == years and list(ro) == sorted(ro) else 'join:order'
            if not rec.check(err is None, lambda: '%s join of %s x %s: %r' % (kind, yo, ro, err), key): continue
            exp = [(y,) + r for y in yo for r in ro]; e = d.reshape(-1); rec.state(kind, yo, ro)
            if not rec.check(fields(j.time, F) == exp, lambda: '%s join of %s x %s: dates %s' % (kind, yo, ro, fields(j.time, F)), key): continue
            n = len(exp)
            for sl in (slice(None), slice(1, None), slice(None, None, 3), slice(n//2, n), slice(None, None, -1)) + tuple([i] for i in range(n)) + tuple(list(c) for c in itertools.combinations(range(min(n, 7)), 2)):
                if not len(np.arange(n)[sl]): continue
                g, err = ref.attempt(lambda: j[(sl,)]); rec.step()
                rec.check(err is None and ref.same(g, e[sl]), lambda: ref.diffmsg('%s join of years %s and days %s read at %s: %r' % (kind, yo, ro, sl, err), g, e[sl]), key)

def lim(case, rec):
    from pygeode import timeutils as tu
    _, kind = case
    t, F, ds = mk(kind); years, rest = table(ds)
    ax, pos = axes(3, t); d = ref.data(tuple(len(a) for a in ax)) + .5
    v = ref.var(ax, d, 'getview')
    want = o_split(d, pos, ds, years, rest)
    for m in (4, 12, 40):
        with ref.chunks(m):
            w = tu.splittimeaxis(v); rec.step(); rec.state(kind, m)
            g, err = ref.attempt(lambda: w.nansum('day').get()); rec.step()
            e = np.nansum(want, pos+1)
            rec.check(err is None and ref.same(g, e), lambda: ref.diffmsg('%s: sums over the days of each year (limit %d): %r' % (kind, m, err), g, e), 'limit')
            j = tu.jointimeaxes(w); g, err = ref.attempt(lambda: j.nansum('time').get()); rec.step()
            e = d.sum(pos)
            rec.check(err is None and ref.same(g, e), lambda: ref.diffmsg('%s: sum over split and joined times (limit %d): %r' % (kind, m, err), g, e), 'limit')

def seas(case, rec):
    from pygeode import timeutils as tu, climat
    from pygeode.timeaxis import SeasonalTAxes
    _, cal, u = case
    for n in (1, 3, 4, 7, 9):
        for s0 in (1, 3, 4):
            ds = [(1999 + (s0 - 1 + k)//4, (s0 - 1 + k) % 4 + 1) for k in range(n)]
            t = SeasonalTAxes[C.cls(cal)](year=np.array([d[0] for d in ds]), season=np.array([d[1] for d in ds]), units=u)
            d = ref.data((n,)) + .5; v = ref.var((t,), d, 'getview')
            w, err = ref.attempt(lambda: tu.splittimeaxis(v)); rec.step(); rec.state(cal, n, s0)
            years, rest = table(ds); e = o_split(d, 0, ds, years, rest)
            g = None
            if err is None: g, err = ref.attempt(w.get)
            ok = err is None and fields(w.axes[1], ('season',)) == rest and ref.same(g, e)
            if not rec.check(ok, lambda: ref.diffmsg('seasonal %s: %d seasons from %d split: %r' % (cal, n, s0, err), g, e), 'seasons'): continue
            j, err = ref.attempt(lambda: tu.jointimeaxes(w)); rec.step(); g = None
            if err is None: g, err = ref.attempt(j.get)
            ok = err is None and fields(j.time, ('year', 'season')) == [(y,) + r for y in years for r in rest] and ref.same(g, e.reshape(-1))
            rec.check(ok, lambda: ref.diffmsg('seasonal %s: %d seasons from %d split and joined: %r' % (cal, n, s0, err), g, e), 'seasons')

def lay(case, rec):
    from pygeode import timeutils as tu
    _, lay_, store, dt, kind, tier = case
    t, F, ds = mk(kind); years, rest = table(ds)
    ax, pos = axes(lay_, t)
    d = (ref.data(tuple(len(a) for a in ax)) % 100).astype(dt)
    if dt == 'complex128': d = d + 1j*d[::-1]
    v = ref.var(ax, d, store)
    v.atts = dict(units='K')
    want = o_split(d, pos, ds, years, rest)
    w, err = ref.attempt(lambda: tu.splittimeaxis(v)); rec.step()
    if not rec.check(err is None, lambda: '%s: %r' % (case, err), 'layout'): return
    check_axes(rec, str(case), w, pos, years, rest, F, type(t))
    oth = [a.name for i, a in enumerate(ax) if i != pos]
    rec.check([a.name for a in w.axes] == oth[:pos] + ['year', 'day'] + oth[pos:] and w.name == 'v' and w.atts == dict(units='K'), lambda: '%s: axes %s, name %r, atts %s' % (case, w.axes, w.name, w.atts), 'layout')
    exp = [(y,) + r for y in years for r in rest]
    j, err = ref.attempt(lambda: tu.jointimeaxes(w)); rec.step()
    if not rec.check(err is None, lambda: '%s: %r' % (case, err), 'layout'): return
    rec.check([a.name for a in j.axes] == [a.name for a in ax] and j.name == 'v' and j.atts == dict(units='K'), lambda: '%s: joined axes %s, name %r, atts %s' % (case, j.axes, j.name, j.atts), 'layout')
    je = want.reshape(want.shape[:pos] + (-1,) + want.shape[pos+2:])
    rec.state(lay_, store, dt, kind)
    for x, e, first in ((w, want, pos), (w, want, pos+1), (j, je, pos)):
        n = e.shape[first]
        def one(s):
            for other in (slice(None), slice(None, None, -1), slice(-1, None)):
                sl = [(slice(None),)]*e.ndim
                for i in range(e.ndim): sl[i] = (s,) if i == first else (other,)
                g, err = ref.attempt(lambda: x[tuple(sl)] if e.ndim > 1 else x[((s,))]); rec.step()
                q = e[np.ix_(*[np.arange(k)[s if i == first else other] for i, k in enumerate(e.shape)])]
                rec.check(err is None and ref.same(g, q, dtype=True), lambda: ref.diffmsg('%s axis %d read at %s, %s: %r' % (case, first, s, other, err), g, q), 'layout')
        reads(e, first, n if n < 5 else 5, one, tier)
    # a day or year axis that is not beside the other
    if w.naxes > 2:
        for perm in itertools.permutations(range(w.naxes)):
            names = [w.axes[i].name for i in perm]
            p = w.transpose(*names)
            j, err = ref.attempt(lambda: tu.jointimeaxes(p))
            rec.step()
            yi, di = names.index('year'), names.index('day')
            if yi > di and err is not None: continue        # refused: the year has to come first
            if not rec.check(err is None, lambda: '%s joined from %s: %r' % (case, names, err), 'apart'): continue
            e = np.moveaxis(np.transpose(want, perm), di, yi + 1 if yi < di else yi)
            q = min(yi, di) if yi < di else yi - 1
            e = e.reshape(e.shape[:q] + (-1,) + e.shape[q+2:])
            for full in (slice(None), slice(1, None, 2)):
                g, err = ref.attempt(lambda: j.slice[tuple((full,) if i == q else (slice(None),) for i in range(j.naxes))].get()); rec.step()
                m = e[tuple(full if i == q else slice(None) for i in range(e.ndim))]
                rec.check(err is None and ref.same(g, m), lambda: ref.diffmsg('%s joined from %s: %r' % (case, names, err), g, m), 'apart')

# ---- leap days -------------------------------------------------------------------------------------
SPANS = [(1999, 2002), (2000, 2001), (2001, 2002), (1899, 1902), (1996, 2005), (2099, 2101)]
def o_leap(cal, ds, ol, on):
    """(kept positions, (year, day of year, hours...) in the new calendar)"""
    keep, new = [], []
    for k, d in enumerate(ds):
        y, m, day = d[:3]
        doy = C.daynum(cal, y, m, day, y) + 1
        om = ol if cal == 'std' and C.leap(y) else on
        if doy in om: continue
        keep.append(k); new.append((y, doy - sum(1 for o in om if o < doy)) + tuple(d[3:]))
    return keep, new

def leap(case, rec):
    import pygeode as pyg
    from pygeode import timeutils as tu
    from pygeode.timeaxis import ModelTime360
    _, cal, span, tier = case
    y0, y1 = SPANS[span]
    Y, M, D = [x.tolist() for x in C.walk(cal, y0, y1)]
    day = list(zip(Y, M, D))
    n = len(day)
    sets = {'daily': [d + (0, 0, 0) for d in day], 'noon': [d + (12, 0, 0) for d in day], 'late': [d + (23, 59, 59) for d in day[40:-40]],
            '6h': [d + (h, 0, 0) for d in day if d[1] in (1, 2, 3, 12) for h in (0, 6, 12, 18)], 'irr': [d + (i % 24, 0, 0) for i, d in enumerate(day) if i*i % 7 == 2 or (d[1], d[2]) == (2, 29)],
            'monthly': [d + (0, 0, 0) for d in day if d[2] == 1], 'leapday': [d + (6, 0, 0) for d in day if (d[1], d[2]) == (2, 28) or (d[1], d[2]) == (3, 1)], 'single': [day[70] + (0, 0, 0)]}
    sets['onlyleap'] = [d + (0, 0, 0) for d in day if (d[1], d[2]) == ((2, 29) if C.leap(d[0]) else (3, 1))] if cal == 'std' else []
    sets['desc'] = sets['irr'][::-1]
    sets['uns'] = sets['monthly'][1::2] + sets['monthly'][::2]
    m360 = [31, 90, 151, 212, 365]
    OM = [([60], [], pyg.ModelTime365), ([59], [], pyg.ModelTime365), ([366], [], pyg.ModelTime365), ([1], [], pyg.ModelTime365), ([60] + [x + (x > 59) for x in m360], m360, ModelTime360), ([60], [60], pyg.ModelTime365), ([], [], pyg.ModelTime365)]
    if cal == 'm360': OM = [([60], [], pyg.ModelTime365), ([], [], ModelTime360), ([], [30, 60], ModelTime360)]
    for name, ds in sets.items():
        if not ds: continue
        key = 'leap' if name not in ('desc', 'uns') else 'leap:order'
        secs = [C.seconds(cal, d, 2000) for d in ds]
        for q, (u, st) in enumerate([('days', ds[0][:3] + (0, 0, 0)), ('hours', (2000, 1, 1, 0, 0, 0)), ('seconds', (1990, 2, 28, 5, 30, 0))]):
            t = C.cls(cal)(values=(np.array(secs, float) - C.seconds(cal, st))/C.UNIT[u], units=u, startdate=dict(zip(FULL, st)))
            d = np.arange(len(ds)) + .5
            v = ref.var((t,), d, 'getview')
            for ol, on, new in OM:
                keep, nd = o_leap(cal, ds, ol, on)
                if not keep: continue
                w, err = ref.attempt(lambda: tu.removeleapyears(v, ol, on, new)); rec.step()
                what = '%s %s %d-%d in %s from %s without %s/%s as %s' % (cal, name, y0, y1, u, st, ol, on, new.__name__)
                if not rec.check(err is None, lambda: '%s: %r' % (what, err), key): continue
                nc = {'ModelTime365': 'm365', 'ModelTime360': 'm360'}[new.__name__]
                exp = []
                for x in nd:
                    # day of year -> date, letting the calendar carry on where the year is shorter
                    s = C.seconds(nc, (x[0], 1, 1)) + (x[1]-1)*86400 + x[2]*3600 + x[3]*60 + x[4]
                    exp.append(C.date(nc, s))
                tt = w.time
                ok = type(tt) is new and fields(tt, FULL) == exp
                rec.check(ok, lambda: '%s: dates %s.., expected %s..' % (what, fields(tt, FULL)[:4], exp[:4]), key)
                g, err = ref.attempt(w.get); rec.step(); rec.state(cal, name, span, str(ol), str(on))
                rec.check(err is None and ref.same(g, d[keep]), lambda: ref.diffmsg('%s: %r' % (what, err), g, d[keep]), key)
                if ok:
                    b = (np.array([C.seconds(nc, e) for e in exp]) - C.seconds(nc, tuple(tt.startdate[f] for f in FULL)))/C.UNIT[tt.units]
                    rec.check(np.allclose(tt.values, b, atol=1e-6), lambda: '%s: values %s, expected %s' % (what, tt.values[:4], b[:4]), key)
                    for sl in (slice(None, None, -1), slice(3, None, 5), [0], [-1]):
                        if not len(np.array(keep)[sl]): continue
                        g, err = ref.attempt(lambda: w[(sl,)]); rec.step()
                        rec.check(err is None and ref.same(g, d[keep][sl]), lambda: ref.diffmsg('%s read at %s: %r' % (what, sl, err), g, d[keep][sl]), key)

def leapdata(case, rec):
    import pygeode as pyg
    from pygeode import timeutils as tu
    ds = [d for d in zip(*[x.tolist() for x in C.walk('std', 1999, 2002)]) if d[1] in (2, 3) and (d[2] > 27 or d[2] < 3)]
    for name in ('time', 't', 'when'):
        for lay_ in range(len(layouts())):
            for store in ref.STORES:
                for dt in DT:
                    t = pyg.StandardTime(units='days', **{f: np.array([d[i] for d in ds]) for i, f in enumerate(FULL[:3])})
                    if name != 'time': t = t.rename(name)
                    ax, pos = axes(lay_, t)
                    d = (ref.data(tuple(len(a) for a in ax)) % 100).astype(dt)
                    v = ref.var(ax, d, store); v.atts = dict(units='K')
                    keep, nd = o_leap('std', ds, [60], [])
                    w, err = ref.attempt(lambda: tu.removeleapyears(v)); rec.step()
                    if not rec.check(err is None, lambda: '%s layout %d: %r' % (name, lay_, err), 'leap:layout'): continue
                    rec.check([a.name for i, a in enumerate(w.axes) if i != pos] == [a.name for i, a in enumerate(ax) if i != pos] and w.atts == dict(units='K') and w.name == 'v', lambda: '%s layout %d: axes %s atts %s' % (name, lay_, w.axes, w.atts), 'leap:name')
                    e = np.take(d, keep, pos); rec.state(name, lay_, store, dt)
                    n = len(keep)
                    for s in (slice(None), slice(2, 9, 3), slice(None, None, -1), [4], [7, 2]):
                        sl = [(slice(None),)]*e.ndim; sl[pos] = (s,)
                        g, err = ref.attempt(lambda: w[tuple(sl)] if e.ndim > 1 else w[(s,)]); rec.step()
                        q = np.take(e, np.arange(n)[s], pos)
                        rec.check(err is None and ref.same(g, q, dtype=True), lambda: ref.diffmsg('%s layout %d %s at %s: %r' % (name, lay_, dt, s, err), g, q), 'leap:layout')
