"""P13: trends and anomalies decompose the data exactly."""
import itertools
import numpy as np
from . import ref, cal as C
from .p12 import times, order, mkaxis, key, keyfields, FAMS, FN

BOUND = {
 'quick': 'anomalies from 5 kinds of mean x 4 calendars x 8 time families (leap days, gaps, irregular, 5 years of days) x 4 orders (also repeated times) x 3 positions of the time axis; '
          'trend coefficients and detrended series for 4 calendars x 6 families of >= 2 years x 3 orders x 3 positions x 4 units x 2 reference dates x linear, periodic and irregular data; reconstruction from coefficients '
          '(joined or separate, with a degenerate year, on the times of the data and on others), 4 dtypes, memory limits 1..12',
 'thorough': 'as quick with memory limits 1..60 and every family for the limits'}

GR = {'std': ('clim', 'daily', 'monthly', 'yearly', 'diurnal'), 'm365': ('clim', 'daily', 'monthly', 'yearly', 'diurnal'), 'm360': ('clim', 'daily', 'monthly', 'yearly', 'diurnal'), 'yearless': ('daily', 'diurnal')}

def ttimes(cal, fam):
    S = lambda *d: C.seconds(cal, d)
    if fam == 'month': return [S(1998 + k//12, k % 12 + 1, 1) for k in range(40)]
    if fam == 'ann': return [S(1996 + k, 7, 4, 12) for k in range(6)]
    if fam == 'irr': return [S(y, m, d) for y, m, d in ((1999, 1, 1), (1999, 3, 5), (2000, 1, 1), (2000, 2, 28), (2001, 3, 5), (2003, 2, 28), (2004, 1, 1), (2010, 3, 5), (2011, 2, 28))]
    if fam == '6h': return [S(y, 2, 27 + k//4, 6*(k % 4)) for y in (2000, 2001, 2002) for k in range(8)]
    if fam == 'two': return [S(y, 1, 1 + k) for y in (2000, 2001) for k in range(5)]
    if fam == 'leap': return [S(y, m, d) for y in (1996, 2000, 2004) for m, d in ((2, 28), (2, 29 if cal == 'std' else 27), (3, 1))]
TF = ('month', 'ann', 'irr', '6h', 'two', 'leap')

def series(kind, secs, n2):
    t = (secs - secs[0])/86400./365.
    out = []
    for j in range(n2):
        if kind == 'lin': out.append(273.15 + j + (.25 - j)*t)
        elif kind == 'per': out.append(10*np.sin(2*np.pi*t*(1 + j)/3.) + j)
        else: out.append((ref.data((len(secs),), salt=j) % 97)*.25 - 7)
    return np.array(out)           # (n2, time)

def cases(tier):
    out = []
    for cal in GR:
        for fam in FAMS:
            for o in ('inc', 'dec', 'mix', 'rep'): out.append(['anom', cal, fam, o])
    for cal in ('std', 'm365', 'm360'):
        for fam in TF:
            for kind in ('lin', 'per', 'irr'): out.append(['trend', cal, fam, kind])
        out.append(['coef', cal]); out.append(['dtype', cal])
    for fam in (('month', 'irr') if tier == 'quick' else TF): out.append(['mem', fam, 12 if tier == 'quick' else 60])
    for cal in ('std', 'm365', 'm360'): out.append(['yearly', cal])
    return out

def tax(cal, T, u, r):
    F = C.fields(cal); R = C.seconds(cal, r)
    return C.cls(cal)(np.array([(t - R)/C.UNIT[u] for t in T]), units=u, startdate=dict(zip(F, r)))

def fit(keys, secs, x):
    """least squares per bin; x (n2, time) -> slope (n2, bins), intercept"""
    bins = sorted(set(keys)); A = np.full((len(x), len(bins)), np.nan); B = A.copy()
    for b, q in enumerate(bins):
        sel = [i for i in range(len(keys)) if keys[i] == q]
        s = np.array([secs[i] for i in sel], dtype='longdouble')
        if len(set(s.tolist())) < 2: continue
        for j in range(len(x)):
            y = np.array([x[j][i] for i in sel], dtype='longdouble')
            sm = s.mean(); ym = y.mean()
            a = ((s - sm)*(y - ym)).sum()/((s - sm)**2).sum()
            A[j, b] = a; B[j, b] = ym - a*sm
    return bins, A, B

def put(x, pos, n1=1):
    """(n2,time) -> array with axes lon(n2), height(1) and time at pos"""
    a = x[:, None, :]
    return np.moveaxis(a, 2, pos)

def axes_at(ax, n2, pos):
    import pygeode as pyg
    axs = [pyg.Lon(n2), pyg.Height(np.array([1.]))]; axs.insert(pos, ax)
    return tuple(axs)

def trend(rec, label, cal, T, ax, secs, x, pos, store, rtol=1e-7, sel=True):
    """climtrend and detrend of the series x at times T"""
    from pygeode import climat
    F = C.fields(cal); keys = [key('clim', F, dict(zip(F, C.date(cal, s)))) for s in T]
    bins, A, B = fit(keys, secs, x)
    kb = [bins.index(q) for q in keys]
    n2 = len(x)
    v = ref.var(axes_at(ax, n2, pos), put(x, pos), store)
    ct, err = ref.attempt(lambda: climat.climtrend(v)); rec.step()
    if not rec.check(err is None, lambda: '%s: climtrend raises %r' % (label, err), 'climtrend'): return
    KF = keyfields('clim', F); a = ct.axes[pos]
    have = list(zip(*[[int(q) for q in a.auxarrays[f]] for f in KF]))
    if not rec.check(have == bins, lambda: '%s: bins %s, expected %s' % (label, have[:6], bins[:6]), 'bins'): return
    got, err = ref.attempt(lambda: np.asarray(ct[:]))
    if not rec.check(err is None, lambda: '%s: climtrend raises %r on evaluation' % (label, err), 'climtrend'): return
    if sel:
        for s in (slice(1, 2), slice(0, 1), slice(None, None, -1)):
            for q in ((slice(None),)*3 + (s,), tuple(slice(-1, None) if i == pos else slice(None) for i in range(3)) + (s,)):
                g, err = ref.attempt(lambda: ct.slice[q].get()); rec.step()
                rec.check(err is None and ref.same(g, got[q], 1e-12, 1e-12), lambda: '%s: climtrend%s: %r %s' % (label, q, err, ref.diffmsg('', g, got[q])), 'select')
    got = np.moveaxis(got, pos, 2)[:, 0]                # lon, bins, coef
    rec.check(ct.axes[-1].name == 'coef' and len(ct.axes) == 4, lambda: '%s: axes %s' % (label, ct.axes), 'axes')
    scale = np.nanmax(np.abs(x)); ok = ~np.isnan(A[:, :])
    year = 365*86400.
    rec.check(np.allclose(got[..., 1][ok]*year, A[ok]*year, rtol=rtol, atol=rtol*scale), lambda: ref.diffmsg(label + ': slopes per year', got[..., 1][ok]*year, A[ok]*year), 'slope')
    rec.check(np.allclose(got[..., 0][ok], B[ok], rtol=rtol, atol=rtol*scale*(1 + np.max(np.abs(secs))/year)), lambda: ref.diffmsg(label + ': intercepts', got[..., 0][ok], B[ok]), 'intercept')
    # the fitted line at each time, and what is left
    good = np.array([ok[:, k] for k in kb]).T
    want = np.array([[A[j, kb[i]]*secs[i] + B[j, kb[i]] for i in range(len(T))] for j in range(n2)])
    if len(set(T)) < len(T): return      # repeated times: which of them a selection by time means is not defined
    r, err = ref.attempt(lambda: climat.detrend(v, return_clim=True)); rec.step()
    if not rec.check(err is None, lambda: '%s: detrend raises %r' % (label, err), 'detrend'): return
    d, tr = r
    out, err = ref.attempt(lambda: (np.asarray(d[:]), np.asarray(tr[:])))
    if not rec.check(err is None, lambda: '%s: detrend raises %r on evaluation' % (label, err), 'detrend'): return
    names = [q.name for q in v.axes]
    rec.check([q.name for q in d.axes] == names and [q.name for q in tr.axes] == names and d.axes[pos] == ax and tr.axes[pos] == ax,
              lambda: '%s: axes %s, %s' % (label, d.axes, tr.axes), 'axes')
    dd, tt = [np.moveaxis(q, pos, 2)[:, 0] for q in out]
    atol = rtol*scale*(1 + np.max(np.abs(secs))/year)
    rec.check(np.allclose(tt[good], want[good], rtol=rtol, atol=atol), lambda: ref.diffmsg(label + ': trend', tt, want), 'trend')
    rec.check(np.allclose((dd + tt)[good], x[good], rtol=1e-6 if v.dtype == 'f4' else 1e-12, atol=1e-9*scale), lambda: ref.diffmsg(label + ': trend + detrended', dd + tt, x), 'sum')
    rec.check(np.allclose(dd[good], (x - want)[good], rtol=rtol, atol=atol), lambda: ref.diffmsg(label + ': detrended', dd, x - want), 'detrended')
    rec.state(label, dd)
    if sel:
        for s in (slice(None, None, -1), slice(1, None, 2), [0], [len(T)-1, 0]):
            q = tuple(s if i == pos else slice(None) for i in range(3))
            g, err = ref.attempt(lambda: np.asarray(d.slice[q].get())); rec.step()
            if not rec.check(err is None, lambda: '%s: detrended%s raises %r' % (label, q, err), 'select'): continue
            w = np.take(out[0], np.arange(len(T))[s], axis=pos)
            rec.check(ref.same(g, w, 1e-9, atol), lambda: ref.diffmsg('%s: detrended%s' % (label, q), g, w), 'select')

def run(case, rec):
    import pygeode as pyg
    from pygeode import climat
    t = case[0]
    if t == 'anom':
        _, cal, fam, o = case
        T = order(times(cal, fam), o); F = C.fields(cal)
        dts = [dict(zip(F, C.date(cal, s))) for s in T]
        ax = mkaxis(cal, T)
        for pos in range(3):
            axs = [pyg.Lon(2), pyg.Height(np.array([1., 5.]))]; axs.insert(pos, ax)
            d = (ref.data([len(a) for a in axs]) % 501)*.25
            v = ref.var(tuple(axs), d, ref.STORES[pos])
            x = np.moveaxis(d, pos, 0)
            for g in GR[cal]:
                label = '%s %s %s time axis %d: anomaly from %s' % (cal, fam, o, pos, FN[g, 'mean'])
                keys = [key(g, F, q) for q in dts]
                want = np.empty(x.shape)
                for q in set(keys):
                    s = [i for i in range(len(keys)) if keys[i] == q]; want[s] = x[s] - x[s].mean(axis=0)
                want = np.moveaxis(want, 0, pos)
                m = getattr(climat, FN[g, 'mean'])(v)
                for form, f in (('v - mean', lambda: v - m), ('mean - v', lambda: m - v), ('v - loaded mean', lambda: v - m.load()), ('(v - mean) + mean', lambda: (v - m) + m)):
                    w = {'mean - v': -want, '(v - mean) + mean': d}.get(form, want)
                    r, err = ref.attempt(f); rec.step()
                    if err is None: r, err = r, ref.attempt(lambda: r[:])[1]
                    if not rec.check(err is None, lambda: '%s (%s) raises %r' % (label, form, err), 'anom:' + g): continue
                    names = [a.name for a in r.axes]
                    if not rec.check(sorted(names) == sorted(a.name for a in v.axes), lambda: '%s (%s): axes %s' % (label, form, r.axes), 'anom:' + g): continue
                    got = np.asarray(r[:]).transpose([names.index(a.name) for a in v.axes])
                    rec.check(r.getaxis('time') == ax, lambda: '%s (%s): times %s, expected %s' % (label, form, r.getaxis('time'), ax), 'anom:' + g)
                    rec.check(ref.same(got, w, 1e-9, 1e-9), lambda: ref.diffmsg('%s (%s)' % (label, form), got, w), 'anom:' + g)
                    rec.state(label, form, got)
    elif t == 'trend':
        _, cal, fam, kind = case
        for o in ('inc', 'dec', 'mix'):
            T = order(ttimes(cal, fam), o)
            for u in ('days', 'seconds', 'hours', 'minutes'):
                for r in ((1996, 1, 1, 0, 0, 0), (1950, 6, 15, 12, 0, 0)):
                    R = C.seconds(cal, r); secs = np.array([s - R for s in T], 'd')
                    x = series(kind, secs, 2); ax = tax(cal, T, u, r)
                    for pos in range(3):
                        trend(rec, '%s %s %s %s %s since %d, time axis %d' % (cal, fam, kind, o, u, r[0], pos), cal, T, ax, secs, x, pos, ref.STORES[pos], sel=(u == 'days'))
        # missing values stay where they are
        T = ttimes(cal, fam); r = (1996, 1, 1, 0, 0, 0); R = C.seconds(cal, r); secs = np.array([s - R for s in T], 'd')
        ax = tax(cal, T, 'days', r); F = C.fields(cal); keys = [key('clim', F, dict(zip(F, C.date(cal, s)))) for s in T]
        x = series(kind, secs, 3); x[1, 0] = np.nan
        for pos in range(3):
            v = ref.var(axes_at(ax, 3, pos), put(x, pos), 'mem')
            got = np.moveaxis(np.asarray(climat.detrend(v)[:]), pos, 2)[:, 0]; rec.step()
            bins, A, B = fit(keys, secs, x)
            bad = np.isnan(A[:, [bins.index(k) for k in keys]])
            single = np.isnan(fit(keys, secs, np.nan_to_num(x))[1][:, [bins.index(k) for k in keys]])
            rec.check(np.array_equal(np.isnan(got) | single, bad | single), lambda: '%s %s: missing %s, expected %s' % (cal, fam, np.isnan(got), bad), 'nan')
    elif t == 'coef':
        cal = case[1]; r = (1996, 1, 1, 0, 0, 0); R = C.seconds(cal, r); F = C.fields(cal)
        T = ttimes(cal, 'month'); secs = np.array([s - R for s in T], 'd'); ax = tax(cal, T, 'days', r)
        keys = [key('clim', F, dict(zip(F, C.date(cal, s)))) for s in T]
        x = series('irr', secs, 2); bins, A, B = fit(keys, secs, x)
        later = [C.seconds(cal, (2020 + k//12, k % 12 + 1, 1)) for k in range(5, 17)]
        for pos in range(3):
            v = pyg.Var(axes_at(ax, 2, pos), values=put(x, pos), name='v')
            ct = climat.climtrend(v).load(); cax = ct.axes[pos]
            # coefficients as they come back from a file: the climatology holds one meaningless year
            yr = C.cls(cal)(units='days', startdate=dict(zip(F, r)), year=np.full(len(cax), 1), **{f: cax.auxarrays[f] for f in keyfields('clim', F)})
            Av = ct(s_coef=1).rename('A'); Bv = ct(s_coef=0).rename('B')
            forms = [('coef', dict(coef=ct)), ('A,B', dict(A=Av, B=Bv)), ('A,B loaded', dict(A=Av.load(), B=Bv.load())), ('coef with one year', dict(coef=ct.replace_axes({cax.name: yr}))),
                     ('coef first', dict(coef=ct.transpose('coef'))), ('coefs reversed in place', None)]
            for name, kw in forms:
                if kw is None: continue
                for which, TT in (('own times', T), ('other times', later), ('reversed', T[::-1]), ('one time', T[7:8])):
                    s2 = np.array([s - R for s in TT], 'd'); a2 = tax(cal, TT, 'hours', r)
                    k2 = [bins.index(key('clim', F, dict(zip(F, C.date(cal, s))))) for s in TT]
                    want = np.array([[A[j, k2[i]]*s2[i] + B[j, k2[i]] for i in range(len(TT))] for j in range(2)])
                    label = '%s time axis %d: from_trend(%s) on %s' % (cal, pos, name, which)
                    f, err = ref.attempt(lambda: climat.from_trend(a2, **kw)); rec.step()
                    if err is None: got, err = ref.attempt(lambda: np.asarray(f[:]))
                    if not rec.check(err is None, lambda: '%s raises %r' % (label, err), 'from:' + name): continue
                    if not rec.check(f.shape == put(want, pos).shape and f.axes[pos] == a2, lambda: '%s: axes %s' % (label, f.axes), 'from:' + name): continue
                    rec.check(ref.same(got, put(want, pos), 1e-7, 1e-5), lambda: ref.diffmsg(label, got, put(want, pos)), 'from:' + name)
                    rec.state(label, got)
    elif t == 'dtype':
        cal = case[1]; r = (1996, 1, 1, 0, 0, 0); R = C.seconds(cal, r)
        for fam in TF:
            T = ttimes(cal, fam); secs = np.array([s - R for s in T], 'd'); ax = tax(cal, T, 'days', r)
            for dt in ('float32', 'int64', 'int32', 'int16'):
                x = np.rint(series('irr', secs, 2)).astype(dt)
                trend(rec, '%s %s %s' % (cal, fam, dt), cal, T, ax, secs, x.astype('d') if dt == 'float32' else x, 1, 'mem', rtol=1e-7)
                if dt == 'float32': trend(rec, '%s %s %s' % (cal, fam, dt), cal, T, ax, secs, x, 1, 'mem', rtol=2e-6, sel=False)
    elif t == 'mem':
        _, fam, top = case; cal = 'std'; r = (1996, 1, 1, 0, 0, 0); R = C.seconds(cal, r)
        T = ttimes(cal, fam); secs = np.array([s - R for s in T], 'd'); ax = tax(cal, T, 'days', r)
        x = series('irr', secs, 2)
        for pos in range(3):
            for lim in range(1, top + 1):
                with ref.chunks(lim): trend(rec, '%s limit %d time axis %d' % (fam, lim, pos), cal, T, ax, secs, x, pos, ref.STORES[lim % 3], sel=False)
    elif t == 'yearly':
        # a series of equal segments: the helpers that cut a series into segments of a fixed length
        from pygeode import composite as co
        cal = case[1]; r = (2001, 1, 1, 0, 0, 0); R = C.seconds(cal, r)
        for L, n in ((3, 4), (5, 3), (4, 5), (1, 4)):
            for step in (1, 5):
                T = [R + 86400*step*k for k in range(L*n)]; ax = tax(cal, T, 'days', r)
                x = series('irr', np.array(T)-R, 2)
                for pos in range(3):
                    v = pyg.Var(axes_at(ax, 2, pos), values=put(x, pos), name='v')
                    y = x.reshape(2, n, L)
                    label = '%s %d segments of %d, time axis %d' % (cal, n, L, pos)
                    res, err = ref.attempt(lambda: co.clim_anoms(v, L)); rec.step()
                    if err is None: res, err = ref.attempt(lambda: (np.asarray(res[0][:]), np.asarray(res[1][:]), res[1].axes))
                    if rec.check(err is None, lambda: '%s: clim_anoms raises %r' % (label, err), 'clim_anoms'):
                        w = put((y - y.mean(axis=1, keepdims=True)).reshape(2, -1), pos)
                        rec.check(ref.same(res[0], put(y.mean(axis=1), pos)), lambda: ref.diffmsg(label + ': climatology', res[0], put(y.mean(axis=1), pos)), 'clim_anoms')
                        rec.check(ref.same(res[1], w), lambda: ref.diffmsg(label + ': anomaly', res[1], w), 'clim_anoms')
                        rec.check(res[2][pos] == ax, lambda: '%s: anomaly axes %s' % (label, res[2],), 'clim_anoms')
                    for cut in range(1, L):          # an incomplete last segment is left out
                        u = v.slice[tuple(slice(None, -cut) if i == pos else slice(None) for i in range(3))]
                        res, err = ref.attempt(lambda: co.clim_anoms(u, L)); rec.step()
                        if err is None: res, err = ref.attempt(lambda: (np.asarray(res[1][:]), res[1].axes))
                        if not rec.check(err is None, lambda: '%s without %d: clim_anoms raises %r' % (label, cut, err), 'clim_anoms'): continue
                        y2 = y[:, :-1]; w = put((y2 - y2.mean(axis=1, keepdims=True)).reshape(2, -1), pos)
                        rec.check(ref.same(res[0], w) and len(res[1][pos]) == L*(n-1), lambda: ref.diffmsg('%s without %d' % (label, cut), res[0], w), 'clim_anoms')
                    res, err = ref.attempt(lambda: co.time_ave(v, 'd')); rec.step()
                    if err is None: res, err = ref.attempt(lambda: np.asarray(res[:]))
                    if rec.check(err is None, lambda: '%s: time_ave raises %r' % (label, err), 'time_ave'):
                        w = put(np.array([x[:, k:k+4].mean(axis=1) if k + 4 <= L*n else np.full(2, np.nan) for k in range(0, L*n, 4)]).T, pos)
                        rec.check(ref.same(res, w), lambda: ref.diffmsg(label + ': time_ave', res, w), 'time_ave')
                    if n < 4: continue
                    res, err = ref.attempt(lambda: co.clim_detrend(v, L)); rec.step()
                    if err is None: res, err = ref.attempt(lambda: [np.asarray(q[:]) for q in res])
                    if rec.check(err is None, lambda: '%s: clim_detrend raises %r' % (label, err), 'clim_detrend'):
                        k = np.arange(n) - (n-1)/2.
                        m = (y*k[None, :, None]).sum(axis=1)/(k*k).sum(); b = y.mean(axis=1) - m*(n-1)/2.
                        w = put((y - m[:, None]*np.arange(n)[None, :, None] - b[:, None]).reshape(2, -1), pos)
                        rec.check(ref.same(res[2], w, 1e-7, 1e-7), lambda: ref.diffmsg(label + ': detrended', res[2], w), 'clim_detrend')
