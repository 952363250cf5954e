"""P10: calendar dates and time values are in one-to-one, ordered correspondence, for every calendar."""
import itertools
import numpy as np
from . import ref, cal as C

BOUND = {
 'quick': 'every day of years -2900..6100 (3 calendars) and of 40000 yearless days, in both directions, from 27 reference dates each; every second of the 2 days around 24 boundaries and every '
          'representable minute/hour/half-day in all 4 units; every combination of out-of-range fields from {-1000000..1000000} ladders around 6 dates; month lengths and days of year of '
          'every month 1..2800; all construction forms (values, fields, yyyymmdd, yyyymmddhh) of each',
 'thorough': 'as quick with every reference date being each first and last day of month of 9 years (216 per calendar)'}

CALS = ('std', 'm365', 'm360')
Y0, Y1 = -2900, 6100

def refdates(cal, tier):
    if cal == 'yearless': return [(d, h, mi, s) for d in (-400, 0, 1, 17) for h, mi, s in ((0, 0, 0), (13, 5, 59), (23, 59, 59))]
    out = [(2000, 1, 1), (2000, 2, 28), (2000, 3, 1), (1999, 12, 30), (1900, 2, 28), (1900, 3, 1), (1, 1, 1), (0, 1, 1), (0, 2, 28), (0, 3, 1), (-1, 12, 30), (-4, 3, 1), (-400, 2, 28), (1600, 12, 30),
           (1970, 1, 1), (1850, 7, 16), (2100, 2, 28), (4000, 2, 28), (-2000, 6, 30), (6000, 1, 1), (2004, 2, 28, 12), (2004, 2, 28, 23, 59, 59), (1979, 10, 30, 6, 30), (1999, 3, 1, 0, 0, 1), (400, 2, 28), (-100, 3, 1), (1582, 10, 15)]
    if cal == 'std': out[1] = (2000, 2, 29); out[7] = (-4, 2, 29); out[23] = (2000, 12, 31, 23, 59, 59)
    if tier == 'thorough':
        for y in (-401, -4, 0, 1, 1896, 1900, 1999, 2000, 2001):
            for m in range(1, 13): out += [(y, m, 1), (y, m, C.monthlen(cal, y, m))]
    return out

def cases(tier):
    out = []
    for cal in CALS + ('yearless',):
        for r in refdates(cal, tier): out.append(['walk', cal, list(r)])
    for cal in CALS + ('yearless',):
        for u in C.UNIT: out.append(['sec', cal, u])
    for cal in CALS + ('yearless',):
        for part in range(8): out.append(['carry', cal, part])
    for cal in CALS: out.append(['month', cal])
    for cal in CALS + ('yearless',): out.append(['build', cal])
    for cal in CALS: out.append(['range', cal])
    return out

def sd(cal, t):
    return dict(zip(C.fields(cal), t))

def axis(cal):
    if cal == 'yearless': return C.cls(cal)([0], units='days', startdate=dict(day=1, hour=0, minute=0, second=0))
    return C.cls(cal)([0], units='days', startdate=dict(year=2000, month=1, day=1, hour=0, minute=0, second=0))

def run(case, rec):
    t, cal = case[:2]
    ax = axis(cal)
    F = C.fields(cal)
    if t == 'walk':
        r = tuple(case[2]); S = sd(cal, r)
        full = dict(zip(F, (r + ((1, 1, 0, 0, 0)[len(r)-1:] if cal != 'yearless' else ()))))
        if cal == 'yearless':
            days = np.arange(-20000, 20001)
            want = dict(day=days)
            base = C.seconds(cal, r)
            secs = days*86400 - base
        else:
            Y, M, D = C.walk(cal, Y0, Y1)
            want = dict(year=Y, month=M, day=D)
            off = C.seconds(cal, r, Y0)
            secs = np.arange(len(Y), dtype='i8')*86400 - off
        tod = r[3:] if cal != 'yearless' else r[1:]
        n = len(secs)
        for k in want: want[k] = np.ascontiguousarray(want[k], 'i4')
        # value -> date
        got = ax.val_as_date(secs, startdate=full, units='seconds')
        rec.step(n); rec.state(cal, r)
        rec.check(set(got) == set(full), lambda: 'fields %s' % sorted(got), 'walk:fields')
        for k in F:
            w = want.get(k, np.zeros(n, 'i4'))
            bad = np.flatnonzero(got[k] != w)
            rec.check(len(bad) == 0, lambda: '%s from %s: %d of %d dates wrong; value %d s gives %s, expected %s' % (cal, r, len(bad), n, secs[bad[0]], {f: int(got[f][bad[0]]) for f in F}, {f: int(want[f][bad[0]]) if f in want else 0 for f in F}), 'walk:date')
        # last second of every day
        got = ax.val_as_date(secs + 86399, startdate=full, units='seconds')
        rec.step(n)
        ok = all((got[k] == want.get(k, dict(hour=23, minute=59, second=59).get(k, 0))).all() for k in F)
        rec.check(ok, lambda: '%s from %s: last second of a day gives the wrong date' % (cal, r), 'walk:lastsecond')
        # date -> value
        back = ax.date_as_val(want, startdate=full, units='seconds')
        rec.step(n)
        bad = np.flatnonzero(back != secs)
        rec.check(len(bad) == 0, lambda: '%s from %s: %d of %d values wrong; date %s gives %s s, expected %s' % (cal, r, len(bad), n, {f: int(want[f][bad[0]]) for f in want}, back[bad[0]], secs[bad[0]]), 'walk:value')
        # an axis over a part of it, in each unit
        for u, f in C.UNIT.items():
            sub = slice(None, None, 97)
            a = C.cls(cal)(secs[sub]/f, units=u, startdate=full)
            rec.step(len(a))
            ok = all((getattr(a, k)[:] == want.get(k, np.zeros(n, 'i4'))[sub]).all() for k in F) and np.allclose(a.values, secs[sub]/f, rtol=1e-13, atol=0)
            rec.check(ok, lambda: '%s from %s in %s: axis has the wrong dates' % (cal, r, u), 'walk:axis')
            rec.check(a.startdate == full and a.units == u, lambda: 'startdate %s units %s' % (a.startdate, a.units), 'walk:startdate')
    elif t == 'sec':
        u = case[2]; f = C.UNIT[u]
        if cal == 'yearless': bnd = [(0,), (1,), (365,), (-40,)]; refs = [(0, 0, 0, 0), (1, 0, 0, 0), (5, 13, 7, 59)]
        else:
            bnd = [(2000, 3, 1), (1900, 3, 1), (2001, 1, 1), (2000, 1, 1), (1999, 12, 1), (0, 1, 1), (1, 1, 1), (0, 3, 1), (-1, 3, 1)]
            refs = [(2000, 1, 1, 0, 0, 0), (1999, 2, 28, 23, 59, 59), (-3, 7, 9, 1, 2, 3), (2010, 12, 30, 12, 0, 0)]
        for b in bnd:
            for r in refs:
                s0 = C.seconds(cal, b) - C.seconds(cal, r)
                sec = np.arange(s0 - 86400, s0 + 86400)
                d0 = [C.date(cal, C.seconds(cal, b) + k*86400) for k in (-1, 0)]
                tod = np.arange(86400)
                want = {}
                nday = 1 if cal == 'yearless' else 3
                for i in range(nday): want[F[i]] = np.repeat([d[i] for d in d0], 86400)
                want['hour'] = np.tile(tod//3600, 2); want['minute'] = np.tile(tod//60 % 60, 2); want['second'] = np.tile(tod % 60, 2)
                S = sd(cal, r)
                for h in (0., .4, -.4):
                    got = ax.val_as_date((sec + h)/f, startdate=S, units=u)
                    rec.step(len(sec)); rec.state(cal, u, b, r, h)
                    for k in F:
                        bad = np.flatnonzero(got[k] != want[k])
                        rec.check(len(bad) == 0, lambda: '%s: %r %s since %s gives %s' % (cal, (sec[bad[0]]+h)/f, u, r, {q: int(got[q][bad[0]]) for q in F}), 'sec:date')
                # dates increase strictly with values: compare as tuples
                key = sum(got[k].astype('i8')*m for k, m in zip(F[-4:], (1000000, 10000, 100, 1)))
                if cal == 'yearless': rec.check((np.diff(key) > 0).all(), 'not increasing', 'sec:order')
                back = ax.date_as_val(want, startdate=S, units=u)
                rec.step(len(sec))
                rec.check(np.allclose(back*f, sec, rtol=0, atol=1e-3), lambda: '%s: %s since %s: values differ' % (cal, u, r), 'sec:value')
                # scalar forms
                for i in range(0, len(sec), 4001):
                    g = ax.val_as_date(sec[i]/f, startdate=S, units=u); rec.step()
                    rec.check(all(int(g[k]) == want[k][i] and np.ndim(g[k]) == 0 for k in F), lambda: '%s: scalar %r %s since %s gives %s' % (cal, sec[i]/f, u, r, g), 'sec:scalar')
                    v = ax.date_as_val({k: int(want[k][i]) for k in F}, startdate=S, units=u)
                    rec.check(np.ndim(v) == 0 and abs(v*f - sec[i]) < 1e-3, lambda: '%s: scalar value %r' % (cal, v), 'sec:scalar')
    elif t == 'carry':
        part = case[2]
        lad = dict(month=[-25, -12, -11, -1, 0, 1, 2, 3, 12, 13, 14, 24, 25, 26, 1201], day=[-800, -366, -365, -31, -1, 0, 1, 28, 29, 30, 31, 32, 59, 60, 61, 365, 366, 367, 40000],
                   hour=[-1000000, -25, -24, -1, 0, 23, 24, 25, 8784, 1000000], minute=[-1000000, -1441, -1, 0, 59, 60, 1440, 1000000], second=[-100000000, -86401, -1, 0, 59, 60, 86400, 100000000])
        ys = [-1, 0, 1899, 1900, 2000, 2003] if cal != 'yearless' else [None]
        combos = []
        for y in ys:
            if cal == 'yearless':
                combos += [(d, h, mi, s) for d in lad['day'] for h in lad['hour'] for mi in lad['minute'] for s in lad['second']]
            else:
                combos += [(y, m, d, h, mi, s) for m in lad['month'] for d in lad['day'] for h in lad['hour'] for mi in lad['minute'][:: 1 if m in (0, 1, 13) else 3] for s in (0, -1, 60, -86401, 100000000)]
        combos = combos[part::8]
        arr = np.array(combos, 'i8')
        S = sd(cal, (2000, 1, 1, 0, 0, 0) if cal != 'yearless' else (0, 0, 0, 0))
        got = ax.date_as_val({k: arr[:, i] for i, k in enumerate(F)}, startdate=S, units='seconds')
        want = np.array([C.seconds(cal, c) for c in _uniqdays(combos)]) if cal == 'yearless' else _bulk(cal, arr)
        rec.step(len(combos))
        bad = np.flatnonzero(got != want)
        rec.check(len(bad) == 0, lambda: '%s: %s gives %s s since the reference date, expected %s (%d differ)' % (cal, combos[bad[0]], got[bad[0]], want[bad[0]], len(bad)), 'carry')
        # wrapping the date normalises it to the date that value denotes
        from pygeode import timeutils
        for i in range(0, len(combos), 53):
            c = combos[i]; dt = dict(zip(F, c))
            w = timeutils.wrapdate(C.cls(cal)([0], units='seconds', startdate=S), dict(dt), allfields=True)
            rec.step(); e = C.date(cal, int(want[i])); rec.state(cal, e)
            g = tuple(int(w[k]) for k in F)
            rec.check(g == e, lambda: '%s: wrapping %s gives %s, expected %s' % (cal, c, g, e), 'wrap')
            k = combos[(i*7+1) % len(combos)]
            dd = timeutils.date_diff(ax, dict(zip(F, e)), dict(zip(F, k)), 'seconds')
            x = int(want[(i*7+1) % len(combos)]) - int(want[i])
            rec.check(dd == x, lambda: '%s: difference from %s to %s is %s s, expected %s' % (cal, e, k, dd, x), 'diff')
    elif t == 'month':
        n = 0
        for y in range(1, 2801):
            for m in range(1, 13):
                if y > 420 and y % 100 > 5 and y % 100 < 96 and m not in (2, 12): continue
                g = ax.days_in_month(y, m); rec.step()
                rec.check(g == C.monthlen(cal, y, m), lambda: '%s: %d-%d has %s days' % (cal, y, m, g), 'days_in_month')
        # day of year (as the calendar's own common year counts it)
        Y, M, D = C.walk(cal, 1999, 2002)
        y0 = 2000 if cal == 'std' else 1999
        for i in range(len(Y)):
            v = ax.date_as_val(dict(year=int(Y[i]), month=int(M[i]), day=int(D[i])), startdate=dict(year=int(Y[i]), month=1, day=0), units='days')
            w = i + 1 - sum(C.yearlen(cal, y) for y in range(1999, Y[i])); rec.step()
            rec.check(v == w, lambda: '%s: day of year of %s is %s' % (cal, (Y[i], M[i], D[i]), v), 'doy')
    elif t == 'build':
        cls = C.cls(cal)
        if cal == 'yearless':
            for days in ([0., 1., 2.], [5.5, 3.25], [-3., 4.125]):
                for st in (dict(hour=0), dict(day=3), dict(day=0, hour=6), {}):
                    a = cls(days, units='days', startdate=st)
                    full = dict(dict(day=1, hour=0, minute=0, second=0), **st)
                    e = [C.date(cal, int(round(d*86400)) + C.seconds(cal, [full[k] for k in F])) for d in days]
                    rec.step(); rec.state(cal, tuple(days), tuple(st))
                    rec.check([tuple(int(getattr(a, k)[i]) for k in F) for i in range(len(days))] == e, lambda: 'yearless %s from %s gives %s' % (days, st, a.auxarrays), 'build:yearless')
            return
        Y, M, D = C.walk(cal, 1895, 2006)
        n = len(Y); H = (np.arange(n)*5) % 24
        rng = np.arange(n)
        val = rng*1. - C.seconds(cal, (2000, 1, 1), 1895)/86400
        # from fields (any subset that begins with the year)
        for k in (1, 2, 3, 4):
            kw = dict(list(zip(F, (Y, M, D, H)))[:k])
            for st in (None, dict(year=2000), dict(year=1896, month=1, day=1, hour=0)):
                a = cls(units='days', startdate=st, **{q: v.copy() for q, v in kw.items()})
                r0 = {q: int(v[0]) for q, v in kw.items()} if st is None else {q: dict(dict(month=1, day=1, hour=0), **st)[q] for q in kw}
                rec.step(n); rec.state(cal, k, str(st))
                exp = np.array([0])
                yy, mm, dd, hh = [kw[q] if q in kw else None for q in F[:4]]
                base = C.seconds(cal, [r0['year'], r0.get('month', 1), r0.get('day', 1), r0.get('hour', 0)], 1895)
                idx = {}
                if k >= 3: exp = rng*86400 + (H*3600 if k == 4 else 0) - base
                else:
                    firsts = {(int(y), int(m)): i for i, (y, m, d) in reversed(list(enumerate(zip(Y, M, D))))}
                    exp = np.array([firsts[int(y), int(m) if k == 2 else 1] for y, m in zip(Y, M)])*86400 - base
                rec.check(set(a.auxarrays) == set(kw) and all((a.auxarrays[q] == kw[q]).all() for q in kw), lambda: '%s: fields changed' % cal, 'build:fields')
                rec.check(np.allclose(a.values*86400, exp, rtol=0, atol=1e-3), lambda: '%s from %d fields, reference %s: values %s, expected %s' % (cal, k, st, a.values[:4], exp[:4]/86400.), 'build:values')
        a = cls(Y*10000 + M*100 + D, datefmt='yyyymmdd', units='days')
        rec.step(n)
        rec.check((a.year == Y).all() and (a.month == M).all() and (a.day == D).all() and (np.asarray(a.hour) == 0).all(), '%s: yyyymmdd' % cal, 'build:yyyymmdd')
        rec.check(np.allclose(np.diff(a.values), 1, atol=1e-9), '%s: yyyymmdd values' % cal, 'build:yyyymmdd')
        a = cls(Y*1000000 + M*10000 + D*100 + H, datefmt='yyyymmddhh', units='hours')
        rec.step(n)
        rec.check((a.year == Y).all() and (a.month == M).all() and (a.day == D).all() and (np.asarray(a.hour) == H).all(), '%s: yyyymmddhh' % cal, 'build:yyyymmddhh')
        rec.check(np.allclose(a.values - a.values[0], rng*24 + H - H[0], atol=1e-6), '%s: yyyymmddhh values' % cal, 'build:yyyymmddhh')
    elif t == 'range':
        import pygeode as pyg
        from pygeode import timeaxis as ta
        rf = dict(std=ta.standardtimerange, m365=ta.modeltime365range, m360=ta.modeltime360range)[cal]
        nf = dict(std=ta.standardtimen, m365=ta.modeltime365n, m360=ta.modeltime360n)[cal]
        dates = [(1999, 12, 30), (2000, 1, 1), (2000, 2, 28), (2000, 3, 1), (2001, 3, 1)]
        txt = lambda d: '%d %s %d' % (d[2], ['', 'Jan', 'Feb', 'Mar', 'Apr', 'May', 'Jun', 'Jul', 'Aug', 'Sep', 'Oct', 'Nov', 'Dec'][d[1]], d[0])
        for s, e in itertools.product(dates, dates):
            if C.seconds(cal, s) > C.seconds(cal, e): continue
            for u in ('days', 'hours'):
                for step in (1, 2, 5, 24, .5):
                    for rf0 in (None, (2000, 1, 1), (1990, 7, 4)):
                        for inc in (False, True):
                            f = C.UNIT[u]; S = C.seconds(cal, s); E = C.seconds(cal, e)
                            if (E - S)/f/step > 800: continue
                            want = []; k = 0
                            if S == E and not inc: continue
                            while S + k*step*f < E or (inc and S + k*step*f <= E): want.append(C.date(cal, int(S + k*step*f))); k += 1
                            a = rf(txt(s), txt(e), step, units=u, ref=None if rf0 is None else txt(rf0), inc=inc)
                            rec.step(); rec.state(cal, s, e, u, step, rf0)
                            h = [int(x) for x in (a.hour if 'hour' in a.auxarrays else [0]*len(a))]
                            got = list(zip([int(x) for x in a.year], [int(x) for x in a.month], [int(x) for x in a.day], h))
                            rec.check(got == [w[:4] for w in want], lambda: '%s range %s to %s step %s %s ref %s inc %s: %d dates %s.., expected %d %s..' % (cal, s, e, step, u, rf0, inc, len(got), got[:3], len(want), want[:3]), 'range')
                            b = nf(txt(s), len(want), step, units=u, ref=None if rf0 is None else txt(rf0)); rec.step()
                            h = [int(x) for x in (b.hour if 'hour' in b.auxarrays else [0]*len(b))]
                            got = list(zip([int(x) for x in b.year], [int(x) for x in b.month], [int(x) for x in b.day], h))
                            rec.check(got == [w[:4] for w in want], lambda: '%s %d times from %s step %s %s: %s..' % (cal, len(want), s, step, u, got[:3]), 'n')

def _uniqdays(c): return c

def _bulk(cal, arr):
    """reference seconds for many dates: year/month part by enumeration, the rest linear"""
    cache = {}
    out = np.empty(len(arr), 'i8')
    for i, (y, m, d, h, mi, s) in enumerate(arr.tolist()):
        if (y, m) not in cache: cache[y, m] = C.seconds(cal, (y, m, 1))
        out[i] = cache[y, m] + (((d-1)*24 + h)*60 + mi)*60 + s
    return out
