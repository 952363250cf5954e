"""P33: time axis ticks fall exactly on calendar boundaries."""
import functools, itertools
import numpy as np
from . import ref, cal as C

BOUND = {
 'quick': 'every explicit locator (year, month, day of month, day, hour, minute, second, season) with every step it offers and 9 that do not divide their parent unit, over every pair of window ends drawn from 40 instants on, just before and just after '
          'calendar boundaries (and 3 window lengths from each), in 3 calendars, the day-count calendar and 2 seasonal ones, 4 units; axes without a year; the automatic locator: every history of 3 views (2 for most numbers of wanted ticks 1 to 9), the first out of 12 from 8 seconds to 3000 years and the others out of 10 up to 11 years, '
          'each result a complete set of ticks of one offered step; tick labels and offsets of every set',
 'thorough': 'as quick with histories of 4 views and 80 window ends'}
HANG = 120

CALS = ('std', 'm365', 'm360')
seconds_ = functools.lru_cache(None)(lambda cal, d: C.seconds(cal, d))
date_ = functools.lru_cache(None)(lambda cal, s: C.date(cal, s))
SPEC = dict(year=[500, 300, 200, 100, 50, 30, 20, 10, 5, 3, 2, 1, 7], month=[6, 4, 3, 2, 1, 12], dom=[15, 10, 5, 3, 2, 1, 7, 4, 6, 20], hour=[12, 6, 3, 2, 1, 4, 8, 5, 7, 9, 11], minute=[30, 15, 10, 5, 3, 2, 1, 7, 11, 20, 25],
            second=[30, 15, 10, 5, 3, 2, 1, 7, 11, 25], day=[10000, 5000, 1000, 300, 100, 50, 30, 10, 5, 3, 2, 1, 7])
AUTO = dict(year=[500, 300, 200, 100, 50, 30, 20, 10, 5, 3, 2, 1], month=[6, 3, 2, 1], dom=[15, 10, 5, 3, 2, 1], hour=[12, 6, 3, 2, 1], minute=[30, 15, 10, 5, 3, 2, 1], second=[30, 15, 10, 5, 3, 2, 1],
            day=[10000, 5000, 3000, 2000, 1000, 500, 300, 200, 100, 50, 30, 10, 5, 3, 2, 1])
LOC = dict(year='YearLocator', month='MonthLocator', dom='DayOfMonthLocator', hour='HourLocator', minute='MinuteLocator', second='SecondLocator', day='DayLocator')
PERIOD = dict(year=366*86400, month=31*86400, dom=86400, hour=3600, minute=60, second=1, day=86400)

def within(n, m):
    """positions 0..n-1 that are multiples of m and leave at least half a step before the end of the parent unit"""
    return [k for k in range(0, n, m) if n - k >= m/2.]

def ticks(cal, kind, m, lo, hi):
    """every tick of the kind in [lo, hi], in seconds since the base year 2000"""
    if kind == 'day': return [86400*m*k for k in range(-(-lo//(86400*m)), hi//(86400*m) + 1)]
    out = []
    if cal == 'yearless':
        if kind == 'hour': units, sub, par = within(24, m), 3600, 86400
        elif kind == 'minute': units, sub, par = within(60, m), 60, 3600
        else: units, sub, par = within(60, m), 1, 60
        return [p*par + u*sub for p in range(lo//par, hi//par + 1) for u in units if lo <= p*par + u*sub <= hi]
    if kind == 'year':
        y = date_(cal, lo)[0]
        y = -(-y//m)*m
        while seconds_(cal, (y, 1, 1)) <= hi:
            s = seconds_(cal, (y, 1, 1))
            if s >= lo: out.append(s)
            y += m
        return out
    if kind in ('month', 'dom'):
        y, mo = date_(cal, lo)[:2]
        while seconds_(cal, (y, mo, 1)) <= hi:
            s = seconds_(cal, (y, mo, 1))
            if kind == 'month':
                if (mo - 1) % m == 0 and s >= lo: out.append(s)
            else: out += [s + 86400*k for k in within(C.monthlen(cal, y, mo), m) if lo <= s + 86400*k <= hi]
            mo += 1
            if mo > 12: mo = 1; y += 1
        return out
    return ticks('yearless', kind, m, lo, hi)

class View:
    def __init__(self, lo, hi): self.b = lo, hi
    def get_view_interval(self): return self.b

def cases(tier):
    out = []
    for cal in CALS:
        for kind in ('year', 'month', 'dom', 'hour', 'minute', 'second'):
            for m in SPEC[kind]: out.append(['explicit', cal, kind, m, tier])
        out.append(['noyear', cal])
    for kind in ('day', 'hour', 'minute', 'second'):
        for m in SPEC[kind]: out.append(['explicit', 'yearless', kind, m, tier])
    for cal in ('std', 'm365'):
        for m in (1, 2): out.append(['season', cal, m])
    for cal in CALS + ('yearless',):
        for n in range(1, 10):
            for w in range(12): out.append(['auto', cal, n, w, tier])
        out.append(['labels', cal])
    out.append(['doy'])
    return out

def run(case, rec):
    import warnings; warnings.simplefilter('ignore')
    globals()[case[0]](case, rec)

def mkaxis(cal, u, r):
    if cal == 'yearless': return C.cls(cal)([0.], units=u, startdate=dict(zip(C.fields(cal), r[2:])))
    return C.cls(cal)([0.], units=u, startdate=dict(zip(C.FIELDS, r)))

def base(cal, r): return C.seconds(cal, r[2:] if cal == 'yearless' else r)

REFS = [(2000, 1, 1, 0, 0, 0), (1987, 2, 28, 5, 17, 29)]

def instants(cal, kind, m, tier):
    D = 86400
    if kind == 'day': c = [0, m*D, 2*m*D, -m*D, 3*D, 30*D, 365*D]
    elif cal == 'yearless': c = [0, D, 3*D + 3600, 29*D - 60, -D, 5*D + 7*3600, 2*D - 3600*3]
    else: c = [C.seconds(cal, d) for d in ((2000, 1, 1), (2000, 2, 28), (2000, 3, 1), (1999, 12, 30), (1900, 2, 28), (2000, 1, 30, 18), (2001, 5, 16, 23), (1999, 12, 30, 23, 59), (2004, 2, 21), (2003, 11, 22, 21, 49, 50))]
    off = [0, 1, -1, 1800, -1800, 5*3600, -2*3600] if tier == 'quick' else [0, 1, -1, 1800, -1800, 5*3600, -2*3600, D, -D, 9*D, -9*D, 37, -59]
    return sorted(set(a + o for a in c for o in off))

def compare(rec, cal, kind, m, u, r, got, lo, hi, what, key):
    """lo, hi: seconds; got: tick values"""
    f = C.UNIT[u]; b = base(cal, r)
    s = [float(g)*f + b for g in got]
    i = [int(round(x)) for x in s]
    want = ticks(cal, kind, m, lo, hi)
    inc = [x for x in want if x < hi]
    ok = all(abs(x - y) < 2e-3 for x, y in zip(s, i)) and i == sorted(set(i)) and i[:len(inc)] == inc
    rest = i[len(inc):]
    # the end of the window and at most one tick past it may be returned: neither is drawn twice or out of place
    if ok and rest: ok = len(rest) <= 2 and rest == ticks(cal, kind, m, min(rest[0], hi), rest[-1])
    rec.check(ok, lambda: '%s: ticks in %s (reference %s, %s) from %s to %s are %s, expected %s' % (what, u, r, cal, C.date(cal, lo), C.date(cal, hi), [C.date(cal, x) for x in i][:6] + [len(i)], [C.date(cal, x) for x in inc][:6] + [len(inc)]), key)
    return ok

def explicit(case, rec):
    from pygeode import timeticker as tt
    _, cal, kind, m, tier = case
    P = PERIOD[kind]*m
    for ui, u in enumerate(C.UNIT):
        for ri, r in enumerate(REFS):
            ax = mkaxis(cal, u, r); b = base(cal, r); f = float(C.UNIT[u])
            loc = getattr(tt, LOC[kind])(ax, m)
            I = instants(cal, kind, m, tier)
            W = [(a, a + L) for k, a in enumerate(I) for L in (P, 3*P + P//3, max(P//2, 1)) if (k + ui + ri) % (4 if tier == 'quick' else 2) == 0]
            J = I[::max(1, len(I)//(40 if tier == 'quick' else 80))]
            W += [(a, c) for a in J for c in J if a < c and c - a <= 12*P and (a//7 + c//7 + ui) % (6 if tier == 'quick' else 2) == 0]
            W += [(a + .25, c + .25) for a, c in W[::5]] + [(a - .25, c - .25) for a, c in W[::5]]
            for lo, hi in W:
                loc.axis = View((lo - b)/f, (hi - b)/f)
                got, err = ref.attempt(loc); rec.step()
                if not rec.check(err is None, lambda: '%s(%d) in %s, %s, from %s to %s: %r' % (LOC[kind], m, cal, u, lo, hi, err), 'explicit:' + kind): continue
                rec.state(cal, kind, m, len(got))
                # window ends are resolved to the second, as the calendar is
                lo_ = int(np.ceil(lo - .5)); hi_ = int(np.ceil(hi - .5))
                if lo != int(lo): lo_, hi_ = int(np.floor(lo + .5)), int(np.floor(hi + .5))
                if lo_ == int(lo_) and (lo != int(lo)):
                    # within half a second of a tick either answer is right
                    w = set(ticks(cal, kind, m, lo_ - 1, hi_ + 1))
                    if w & {lo_, hi_, lo_ - 1, hi_ - 1, lo_ + 1, hi_ + 1}: continue
                compare(rec, cal, kind, m, u, r, got, lo_, hi_, '%s(%d)' % (LOC[kind], m), 'explicit:' + kind)

def season(case, rec):
    from pygeode import timeticker as tt
    from pygeode.timeaxis import SeasonalTAxes
    _, cal, m = case
    MID = [(1, 16), (4, 15), (7, 16), (10, 16)]
    for u in C.UNIT:
        for r in REFS:
            ax = SeasonalTAxes[C.cls(cal)](values=np.array([0., 400.*86400/C.UNIT[u]]), units=u, startdate=dict(zip(C.FIELDS, r)))
            f = float(C.UNIT[u]); b = C.seconds(cal, r)
            mid = [C.seconds(cal, (y,) + MID[k]) for y in range(1990, 2012) for k in range(0, 4, m)]
            tk = tt.SeasonTickGen(ax, [m])
            for y in (1999, 2000, 2001):
                for mo, d in ((1, 1), (1, 16), (1, 17), (4, 15), (4, 14), (7, 20), (10, 16), (12, 1), (12, 31), (2, 28), (11, 30)):
                    for n in (1, 30, 91, 200, 365, 1000, 2000):
                        lo = C.seconds(cal, (y, mo, d)); hi = lo + n*86400
                        got, err = ref.attempt(lambda: list(itertools.islice(tk.ticks((lo - b)/f, (hi - b)/f), 100))); rec.step()
                        want = [x for x in mid if lo <= x < hi]
                        g = None if got is None else [int(round(float(x)*f + b)) for x in got]
                        rec.state(cal, m, y, mo, d, n)
                        ok = err is None and g[:len(want)] == want and len(g) - len(want) <= 1 and all(x in mid for x in g)
                        rec.check(ok, lambda: 'seasonal %s: ticks every %d seasons from %s over %d days are %s %r, expected %s' % (cal, m, (y, mo, d), n, None if g is None else [C.date(cal, x)[:3] for x in g], err, [C.date(cal, x)[:3] for x in want]), 'season')

def noyear(case, rec):
    _, cal = case
    from pygeode import timeticker as tt
    n = 366 if cal == 'std' else C.yearlen(cal, 1)
    Y, M, D = C.walk(cal, 0, 1)
    ax = C.cls(cal)(month=np.array(M), day=np.array(D), units='days')
    off = {(int(m), int(d)): i for i, (m, d) in enumerate(zip(M, D))}
    for kind, name in (('month', 'MonthLocator'), ('dom', 'DayOfMonthLocator')):
        for m in SPEC[kind]:
            loc = getattr(tt, name)(ax, m)
            for lo in range(0, n - 1, 7):
                for L in (1, 10, 45, 100, 365):
                    hi = min(lo + L, n - 1)
                    loc.axis = View(float(lo), float(hi))
                    got, err = ref.attempt(loc); rec.step()
                    if kind == 'month': w = [off[k, 1] for k in range(1, 13, m)]
                    else: w = sorted(off[k, 1] + d for k in range(1, 13) for d in within(C.monthlen(cal, 0, k), m))
                    w = [x for x in w if lo <= x < hi]
                    rec.state(cal, kind, m, lo)
                    rec.check(err is None and [float(x) for x in got][:len(w)] == w and len(got) - len(w) <= 1, lambda: '%s without years: %s(%d) from day %d to %d: %s %r, expected %s' % (cal, name, m, lo, hi, got, err, w), 'noyear')
    # the automatic locator must cope as well
    for lo in range(0, n - 1, 13):
        for L in (.01, .5, 1, 3, 20, 100, 350):
            for k in (1, 3, 5, 9):
                loc = tt.AutoCalendarLocator(ax, nticks=k); loc.axis = View(float(lo), float(min(lo + L, n-1)))
                got, err = ref.attempt(loc); rec.step()
                rec.check(err is None and all(np.diff(got) > 0) and sum(lo <= x <= lo + L for x in got) <= 4*k + 12, lambda: '%s without years: automatic ticks from day %d over %s days: %s %r' % (cal, lo, L, got, err), 'noyear')

D_ = 86400
def windows(cal):
    a = 0 if cal == 'yearless' else C.seconds(cal, (1999, 12, 30, 7, 30, 0))
    return [(a + o, a + o + L) for o, L in ((0, 8), (30, 300), (0, 3600), (3600*4 + 59, 6*3600), (0, D_), (D_*2, 9*D_), (5, 40*D_), (D_*61, 200*D_), (-400*D_, 800*D_), (0, 4000*D_), (D_*100, 40000*D_), (-1000*D_, 1000000*D_))]

def auto(case, rec):
    """the automatic locator remembers where its last search ended: explore every history of views"""
    from pygeode import timeticker as tt
    _, cal, n, w0, tier = case
    W = windows(cal); u = list(C.UNIT)[n % 4]; r = REFS[n % 2]
    f = float(C.UNIT[u]); b = base(cal, r)
    kinds = ('day', 'hour', 'minute', 'second') if cal == 'yearless' else ('year', 'month', 'dom', 'hour', 'minute', 'second')
    cache = {}
    depth = 4 if tier == 'thorough' else 3
    hist = [(w0,) + h for h in itertools.product(range(10), repeat=depth-1)] if tier == 'thorough' or n == 5 else [(w0, k) for k in range(10)]
    for h in hist:
        ax = mkaxis(cal, u, r)
        loc = tt.AutoCalendarLocator(ax, nticks=n)
        for k in h:
            lo, hi = W[k]
            loc.axis = View((lo - b)/f, (hi - b)/f)
            got, err = ref.attempt(loc); rec.step()
            if not rec.check(err is None, lambda: '%s: automatic ticks for views %s, %d wanted: %r' % (cal, h, n, err), 'auto'): break
            i = [int(round(float(x)*f + b)) for x in got]
            key = k, tuple(i)
            if key not in cache:
                fits = []
                for kind in kinds:
                    for m in AUTO[kind]:
                        if (hi - lo)/float(PERIOD[kind]*m) > 3*len(i) + 40: continue
                        w = ticks(cal, kind, m, lo, hi); inc = [x for x in w if x < hi]
                        if i[:len(inc)] == inc and len(i) - len(inc) <= 2: fits.append((kind, m))
                cache[key] = fits
            rec.state(cal, n, k, loc._itkgen)
            rec.check(cache[key], lambda: '%s: automatic ticks after views %s (%d wanted) from %s to %s: %s are not the ticks of any offered step' % (cal, h, n, C.date(cal, lo), C.date(cal, hi), [C.date(cal, x) for x in i][:8]), 'auto')
            rec.check(len(i) <= 3*n + 8 or (kinds[0], AUTO[kinds[0]][0]) in cache[key], lambda: '%s: automatic ticks after views %s: %d where %d were wanted' % (cal, h, len(i), n), 'auto:many')
            rec.outcome('ticks<=%d' % (10*(1 + len(i)//10)))

def labels(case, rec):
    from pygeode import timeticker as tt
    _, cal = case
    F = dict(year='$Y', month='$b $Y', dom='$d $b', hour='$H:$M', minute='$H:$M', second='$H:$M:$S', day='$d')
    for u in C.UNIT:
        for r in REFS:
            ax = mkaxis(cal, u, r); b = base(cal, r); f = float(C.UNIT[u])
            for lo, hi in windows(cal):
                for n in (2, 5, 8):
                    loc = ax.locator(); loc._nticks = n; loc.axis = View((lo - b)/f, (hi - b)/f)
                    t = loc()
                    for fmt, ofs in ((None, None), ('$V', None), ('$H:$M:$S', '$d'), ('$d', '')):
                        fm = tt.TimeFormatter(ax, fmt, ofs); 
                        for sub in (t, t[:1], t[:2], t[::-1], [float(x) for x in t], [float(x) for x in t[:1]], np.array(t), []):
                            _, err = ref.attempt(lambda: fm.set_locs(sub)); rec.step()
                            if not rec.check(err is None, lambda: '%s: labelling ticks %s: %r' % (cal, sub, err), 'labels'): continue
                            for x in list(sub)[:4]:
                                g, err = ref.attempt(lambda: fm(x)); rec.step()
                                ok = err is None and g == ax.formatvalue(x, fm.fmt) and (fmt is None or fm.fmt == fmt)
                                rec.check(ok, lambda: '%s: label of %r is %r %r' % (cal, x, g, err), 'labels')
                            if len(sub):
                                e = ax.formatvalue(sub[0], fm.ofsfmt if fmt is None else (ofs or ''))
                                rec.check(fm.get_offset() == e, lambda: '%s: offset of %s is %r, expected %r' % (cal, sub[0], fm.get_offset(), e), 'labels')
                            rec.state(cal, u, lo, hi, str(fm.fmt))
                            # two different ticks that are drawn together never share both label and offset field
                            if fmt is None and len(sub) > 1:
                                full = [fm(x) + '|' + ax.formatvalue(x, fm.ofsfmt) for x in sub]
                                rec.check(len(set(full)) == len(full), lambda: '%s: ticks %s have the same label: %s' % (cal, [C.date(cal, int(round(float(x)*f + b))) for x in sub], full), 'labels:same')

def doy(case, rec):
    from pygeode import timeticker as tt
    ax = mkaxis('std', 'days', REFS[0])
    loc = tt.DayOfYearLocator(ax, 10); loc.axis = View(0., 100.)
    got, err = ref.attempt(loc); rec.step()
    rec.check(err is None and [float(x) for x in got][:10] == [10.*k for k in range(10)], lambda: 'DayOfYearLocator: %s %r' % (got, err), 'doy')
