"""P12: climatologies and time means bin every time step exactly once."""
import itertools
import numpy as np
from . import ref, cal as C

BOUND = {
 'quick': '6 groupings x 5 statistics x 4 calendars x 8 time families (6-hourly to monthly, gaps, leap days, year and season boundaries, daily for 5 years) x 4 orders (also with repeated times) x '
          '3 positions of the time axis; every memory limit 1..12 elements; every nan pattern over 6 times in 2-3 bins; 5 dtypes; every date of 9 years for the season of each calendar; axes with '
          'only some date fields',
 'thorough': 'as quick with every memory limit 1..40 and nan patterns over 9 times'}

STAT = ('mean', 'nanmean', 'stdev', 'nanstdev', 'count')
FN = {('clim', 'mean'): 'climatology', ('clim', 'nanmean'): 'nanclimatology', ('yearly', 'nanmean'): 'yearlynanmean'}
for g in ('clim', 'daily', 'monthly', 'yearly', 'diurnal', 'seasonal'):
    for s in STAT: FN.setdefault((g, s), g + s)
GROUPS = {'std': ('clim', 'daily', 'monthly', 'yearly', 'diurnal', 'seasonal'), 'm365': ('clim', 'daily', 'monthly', 'yearly', 'diurnal', 'seasonal'),
          'm360': ('clim', 'daily', 'monthly', 'yearly', 'diurnal'), 'yearless': ('clim', 'daily', 'diurnal')}

def key(g, F, d):
    """the bin a date belongs to (d: dict of fields)"""
    if g == 'seasonal':
        y, m = d['year'], d['month']
        return (y + 1, 1) if m == 12 else (y, m % 12 // 3 + 1)
    drop = dict(clim=('year',), diurnal=('year', 'month', 'day'), daily=('hour', 'minute', 'second'), monthly=('day', 'hour', 'minute', 'second'), yearly=('month', 'day', 'hour', 'minute', 'second'))[g]
    return tuple(d[f] for f in F if f not in drop)

def keyfields(g, F):
    if g == 'seasonal': return ('year', 'season')
    drop = dict(clim=('year',), diurnal=('year', 'month', 'day'), daily=('hour', 'minute', 'second'), monthly=('day', 'hour', 'minute', 'second'), yearly=('month', 'day', 'hour', 'minute', 'second'))[g]
    return tuple(f for f in F if f not in drop)

def stat(s, x):
    x = np.asarray(x, 'd')
    with np.errstate(all='ignore'):
        if s in ('nanmean', 'nanstdev', 'count'): x = x[~np.isnan(x)]
        n = len(x)
        if s == 'count': return n
        if n == 0: return np.nan
        if s in ('mean', 'nanmean'): return x.sum()/n
        return np.nan if n == 1 else np.std(x, ddof=1)

def times(cal, fam):
    """list of seconds"""
    yl = cal == 'yearless'
    S = lambda *d: C.seconds(cal, (d if not yl else (d[2] + 30*d[1],) + tuple(d[3:])))
    if fam == '6h': t0 = S(2000, 2, 27, 0); return [t0 + k*21600 for k in range(14)]
    if fam == 'day': t0 = S(1999, 12, 28, 12); return [t0 + k*86400 for k in range(70)]
    if fam == 'year': t0 = S(1999, 11, 29); return [t0 + k*86400*46 for k in range(24)]
    if fam == 'month': return [S(1999 + (k+8)//12, (k+8) % 12 + 1, 1) for k in range(30)] if not yl else [k*86400*30 for k in range(30)]
    if fam == 'gap': t0 = S(1999, 12, 31, 18); return [t0 + k*21600 + 86400*365*(k//5) + (86400*27 if k % 5 > 3 else 0) for k in range(20)]
    if fam == 'irr': t0 = S(2003, 11, 30, 23, 59, 59); return [t0 + k*k*3601*7 for k in range(25)]
    if fam == 'ann': return [S(1996 + k, 2, 28 + (1 if cal == 'std' and k % 4 == 0 else 0)) for k in range(9)] if not yl else [k*86400*365 for k in range(9)]
    if fam == 'sec': t0 = S(2000, 12, 31, 23, 59, 57); return [t0 + k for k in range(8)]
FAMS = ('6h', 'day', 'year', 'month', 'gap', 'irr', 'ann', 'sec')

def order(T, o):
    n = len(T)
    if o == 'inc': return list(T)
    if o == 'dec': return list(T)[::-1]
    if o == 'mix':
        k = next(p for p in (7, 11, 13, 17) if n % p)
        return [T[(k*i + 3) % n] for i in range(n)]
    if o == 'rep': return [T[i] for i in range(n) for _ in range(1 + (i % 3 == 1))]

def cases(tier):
    out = []
    for cal in GROUPS:
        for fam in FAMS:
            for o in ('inc', 'dec', 'mix', 'rep'): out.append(['group', cal, fam, o])
    for cal in ('std', 'm365'):
        for y in (1999, 2000, 2001): out.append(['season', cal, y])
    for g in ('clim', 'monthly', 'diurnal', 'seasonal', 'daily', 'yearly'): out.append(['mem', g, tier])
    for g in ('monthly', 'diurnal'):
        for part in range(4): out.append(['nan', g, part, tier])
    for g in ('clim', 'monthly', 'seasonal'): out.append(['dtype', g])
    for cal in ('std', 'm365'): out.append(['fields', cal])
    for cal in ('std', 'm365'): out.append(['nested', cal])
    return out

def mkaxis(cal, T, u='hours'):
    F = C.fields(cal)
    r = (1998, 1, 1, 0, 0, 0) if cal != 'yearless' else (0, 0, 0, 0)
    R = C.seconds(cal, r)
    return C.cls(cal)(np.array([(t - R)/C.UNIT[u] for t in T]), units=u, startdate=dict(zip(F, r)))

def judge(rec, label, out, g, F, dts, x, ti, stats, k, rtol=1e-9, atol=1e-9):
    """out: result variable; dts: date dict per time; x: data with time moved first"""
    keys = [key(g, F, d) for d in dts]
    bins = sorted(set(keys)); KF = keyfields(g, F)
    a = out.axes[ti]
    have = list(zip(*[[int(v) for v in a.auxarrays[f]] for f in KF])) if all(f in a.auxarrays for f in KF) else None
    if not rec.check(have == bins and set(a.auxarrays) == set(KF), lambda: '%s: bins %s (fields %s), expected %s' % (label, have and have[:6], sorted(a.auxarrays), bins[:6]), k + ':bins'): return
    want = np.empty((len(bins),) + x.shape[1:])
    ka = np.array([bins.index(q) for q in keys])
    for b in range(len(bins)):
        sel = x[ka == b]
        for ix in np.ndindex(*x.shape[1:]): want[(b,) + ix] = stat(stats, sel[(slice(None),) + ix])
    got = np.moveaxis(np.asarray(out[:]), ti, 0)
    rec.state(label, got)
    scale = np.nanmax(np.abs(x)) if x.size and np.isfinite(x).any() else 1
    if stats in ('stdev', 'nanstdev'): atol = max(atol, 3e-7*scale)
    rec.check(ref.same(got, want, rtol=rtol, atol=atol), lambda: ref.diffmsg(label, got, want), k)

def run(case, rec):
    import pygeode as pyg
    from pygeode import climat
    t = case[0]
    if t == 'group':
        _, cal, fam, o = case
        T = order(times(cal, fam), o); n = len(T); F = C.fields(cal)
        dts = [dict(zip(F, C.date(cal, s))) for s in T]
        ax = mkaxis(cal, T)
        for pos in range(3):
            lon = pyg.Lon(2); z = pyg.Height(np.array([1., 5.]))
            axs = [lon, z]; axs.insert(pos, ax)
            d = ref.data([len(a) for a in axs]) * .1
            v = pyg.Var(tuple(axs), values=d, name='v') if pos else ref.var(tuple(axs), d, 'getview')
            x = np.moveaxis(d, pos, 0)
            for g in GROUPS[cal]:
                for s in (STAT if pos == 1 else ('mean', 'stdev')):
                    label = '%s %s %s time axis %d: %s' % (cal, fam, o, pos, FN[g, s])
                    out, err = ref.attempt(lambda: getattr(climat, FN[g, s])(v)); rec.step()
                    if not rec.check(err is None, lambda: '%s raises %r' % (label, err), 'build'): continue
                    rec.check([a.name for a in out.axes] == [a.name for a in v.axes] and out.shape[(pos+1) % 3] == v.shape[(pos+1) % 3], lambda: '%s: axes %s' % (label, out.axes), 'axes')
                    judge(rec, label, out, g, F, dts, x, pos, s, 'value')
    elif t == 'season':
        # the season of every date of the year, at the first and last second of the day
        _, cal, y = case
        Y, M, D = C.walk(cal, y-1, y+2)
        for tod in (0, 86399):
            n = len(Y); R = C.seconds(cal, (y-1, 1, 1, 0, 0, 0))
            ax = mkaxis(cal, [R + 86400*k + tod for k in range(n)], 'seconds')
            v = pyg.Var((ax,), values=np.arange(n)*1., name='v')
            out = climat.seasonalmean(v); rec.step(n)
            keys = [(yy + 1, 1) if m == 12 else (yy, m % 12 // 3 + 1) for yy, m in zip(Y.tolist(), M.tolist())]
            bins = sorted(set(keys)); a = out.axes[0]
            have = list(zip([int(q) for q in a.year], [int(q) for q in a.season]))
            rec.check(have == bins, lambda: '%s %d: seasons %s, expected %s' % (cal, y, have, bins), 'season:bins')
            ka = np.array([bins.index(k) for k in keys])
            want = [np.mean(np.flatnonzero(ka == b)) for b in range(len(bins))]
            cnt = climat.seasonalcount(v)[:]; wc = [int((ka == b).sum()) for b in range(len(bins))]
            rec.state(cal, y, tod, tuple(cnt))
            rec.check(list(cnt) == wc, lambda: '%s %d: days per season %s, expected %s' % (cal, y, cnt, wc), 'season:count')
            rec.check(ref.same(out[:], want), lambda: ref.diffmsg('%s %d seasonal mean' % (cal, y), out[:], want), 'season:mean')
    elif t == 'mem':
        g, tier = case[1:]
        cal = 'std'; F = C.fields(cal)
        for fam, o in (('gap', 'inc'), ('irr', 'mix'), ('year', 'rep')):
            T = order(times(cal, fam), o)
            dts = [dict(zip(F, C.date(cal, s))) for s in T]; ax = mkaxis(cal, T)
            for pos in range(3):
                axs = [pyg.Lon(2), pyg.Height(np.array([1., 5.]))]; axs.insert(pos, ax)
                d = ref.data([len(a) for a in axs])*1.; d.flat[::5] = np.nan
                v = ref.var(tuple(axs), d, 'getvalues'); x = np.moveaxis(d, pos, 0)
                for lim in range(1, 13 if tier == 'quick' else 41):
                    for s in (('nanmean', 'nanstdev') if lim % 2 else ('mean', 'count')):
                        with ref.chunks(lim):
                            out = getattr(climat, FN[g, s])(v); rec.step()
                            judge(rec, 'limit %d %s %s time axis %d: %s' % (lim, fam, o, pos, FN[g, s]), out, g, F, dts, x, pos, s, 'mem')
    elif t == 'nan':
        g, part, tier = case[1:]
        cal = 'std'; F = C.fields(cal); n = 6 if tier == 'quick' else 9
        T = [C.seconds(cal, (2000, 1 + k//3, 3 + k, 6*(k % 2), 0, 0)) for k in range(n)]
        dts = [dict(zip(F, C.date(cal, s))) for s in T]; ax = mkaxis(cal, T)
        pats = list(itertools.product((0, 1), repeat=n))
        # all patterns at once along a second axis: every column is one pattern
        cols = np.array(pats).T
        base = (np.arange(n)*1.7 + .3)[:, None]
        for k, val in enumerate((np.nan, np.inf, 0., -1e6)):
            if k % 4 != part: continue
            d = np.where(cols == 1, val, base + np.zeros(cols.shape))
            if val == np.inf: stats = ('mean', 'nanmean', 'count')
            else: stats = STAT
            v = pyg.Var((ax, pyg.Lon(cols.shape[1])), values=d, name='v')
            for s in stats:
                out = getattr(climat, FN[g, s])(v); rec.step(len(pats))
                judge(rec, 'all patterns of %s: %s' % (val, FN[g, s]), out, g, F, dts, d, 0, s, 'nan')
    elif t == 'dtype':
        g = case[1]; cal = 'std'; F = C.fields(cal)
        for fam in ('year', 'month', 'day'):
            T = times(cal, fam); dts = [dict(zip(F, C.date(cal, s))) for s in T]; ax = mkaxis(cal, T); n = len(T)
            for dt in ('float64', 'float32', 'int64', 'int32', 'int16', 'bool'):
                for off in (0, 300, 100000):
                    d = (np.arange(n) % 7 + off).astype(dt)
                    if dt == 'int16' and off > 30000: continue
                    v = pyg.Var((ax,), values=d, name='v')
                    for s in STAT:
                        out, err = ref.attempt(lambda: getattr(climat, FN[g, s])(v)); rec.step()
                        if err is None: r, err = ref.attempt(lambda: out[:])
                        if not rec.check(err is None, lambda: '%s of %s raises %r' % (FN[g, s], dt, err), 'dtype:' + dt): continue
                        tol = 1e-6 if dt == 'float32' else 1e-9
                        judge(rec, '%s %s of %s offset %d' % (fam, FN[g, s], dt, off), out, g, F, dts, d.astype('d'), 0, s, 'dtype:' + dt, rtol=tol)
            # constant series: no spread
            for c in (.1, .7, 273.15, 1e5 + .1):
                v = pyg.Var((ax,), values=np.full(n, c), name='v')
                for s in ('stdev', 'nanstdev'):
                    out = getattr(climat, FN[g, s])(v); rec.step()
                    judge(rec, '%s of a constant %s' % (FN[g, s], c), out, g, F, dts, np.full(n, c), 0, s, 'constant')
    elif t == 'fields':
        # axes that carry only some of the fields
        cal = case[1]; F0 = C.fields(cal)
        D = [(y, m, d, h) for y in (1999, 2000, 2001) for m in (1, 2, 12) for d in (1, 2) for h in (0, 12)]
        for F in (('year', 'month'), ('year', 'month', 'day'), ('year',), ('month', 'day', 'hour'), ('year', 'month', 'day', 'hour'), ('month',), ('month', 'day')):
            rows = [tuple(d[F0.index(f)] for f in F) for d in D]
            for o in ('inc', 'mix', 'rep'):
                R = order(rows, o)
                ax = C.cls(cal)(units='days', **{f: np.array([r[i] for r in R]) for i, f in enumerate(F)})
                dts = [dict(zip(F, r)) for r in R]
                d = ref.data((len(R),))*1.
                v = pyg.Var((ax,), values=d, name='v')
                for g in GROUPS[cal]:
                    KF = keyfields(g, F)
                    if not KF: continue
                    if g == 'seasonal' and ('year' not in F or 'month' not in F): continue
                    if g == 'daily' and 'day' not in F or g == 'monthly' and 'month' not in F or g == 'yearly' and 'year' not in F: continue
                    for s in ('mean', 'count'):
                        out, err = ref.attempt(lambda: getattr(climat, FN[g, s])(v)); rec.step()
                        if not rec.check(err is None, lambda: '%s on fields %s raises %r' % (FN[g, s], F, err), 'fields'): continue
                        judge(rec, 'fields %s %s: %s' % (F, o, FN[g, s]), out, g, F, dts, d, 0, s, 'fields')
    elif t == 'nested':
        cal = case[1]; F = C.fields(cal)
        # a mean of means: bins of bins
        t0 = C.seconds(cal, (1999, 11, 20, 0, 0, 0)); T = [t0 + 6*3600*k + 86400*(k//9)*17 for k in range(120)]
        ax = mkaxis(cal, T); d = ref.data((len(T),))*1.; v = pyg.Var((ax,), values=d, name='v')
        dts = [dict(zip(F, C.date(cal, s))) for s in T]
        def group(g, F, dts, x):
            keys = [key(g, F, q) for q in dts]; bins = sorted(set(keys)); KF = keyfields(g, F)
            return KF, [dict(zip(KF, b)) for b in bins], np.array([np.mean([x[i] for i in range(len(keys)) if keys[i] == b]) for b in bins])
        for chain in (('daily', 'monthly'), ('daily', 'monthly', 'yearly'), ('monthly', 'clim'), ('daily', 'clim'), ('monthly', 'seasonal'), ('daily', 'diurnal'), ('monthly', 'yearly'), ('daily', 'seasonal')):
            if chain[-1] == 'diurnal': continue
            f, q, x, w = F, dts, d, v
            for g in chain[:-1]:
                f, q, x = group(g, f, q, x); w = getattr(climat, FN[g, 'mean'])(w)
            g = chain[-1]; out, err = ref.attempt(lambda: getattr(climat, FN[g, 'mean'])(w)); rec.step()
            if not rec.check(err is None, lambda: '%s raises %r' % (chain, err), 'nested'): continue
            judge(rec, '%s: %s' % (cal, ' of '.join(chain[::-1])), out, g, f, q, x, 0, 'mean', 'nested')
