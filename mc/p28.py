"""P28: formatting a date and parsing it back returns the same date."""
import itertools
import numpy as np
from . import ref, cal as C

BOUND = {
 'quick': '3 calendars with years, the day-count calendar and both seasonal calendars; every day of years 0, 1, 4, 99, 100, 1900, 1999, 2000, 2001, 9999 (at rotating times of day, units and reference dates), every hour and 5 seconds within it for the days around month, year and leap ends; 4 units, 4 reference '
          'dates, values up to 0.4 s off; all 20 directives alone, in braces, adjacent and escaped; axes holding each of 9 subsets of the date fields; 17 text forms, upper, lower and title case, parsed back; 34 texts that are no date; '
          'axes of n steps and ranges from 6 dates, 14 steps down to a tenth, lengths 1 to 24, 4 units, 2 references',
 'thorough': 'as quick with every day at six times of day in all units from all reference dates, and lengths 1 to 200'}

MON = ['January', 'February', 'March', 'April', 'May', 'June', 'July', 'August', 'September', 'October', 'November', 'December']
CALS = ('std', 'm365', 'm360')
YEARS = (0, 1, 4, 99, 100, 1900, 1999, 2000, 2001, 9999)
REFS = ((2000, 1, 1, 0, 0, 0), (1, 1, 1, 0, 0, 0), (1999, 12, 30, 23, 59, 59), (1996, 2, 28, 12, 30, 0))

def cases(tier):
    out = []
    for cal in CALS:
        for y in YEARS: out.append(['year', cal, y, tier])
        for y in (1999, 2000): out.append(['times', cal, y, tier])
        out += [['parse', cal], ['subset', cal]]
        for u in C.UNIT: out.append(['trange', cal, u, tier])
    out += [['yearless', tier], *[['season', c, y0] for c in ('std', 'm365') for y0 in (1, 95, 1998, 2003)]]
    return out

def run(case, rec):
    import warnings; warnings.simplefilter('ignore')
    globals()[case[0]](case, rec)

def table(cal, d, value, have=C.FIELDS):
    """what every directive must print for the date d, of which only the fields `have` are known"""
    y, m, day, h, mi, s = d
    t = {}
    has = lambda f, **k: t.update({a: (b if f in have else '') for a, b in k.items()})
    has('year', y='%02d' % (y % 100), a='%d' % y, Y=('y%d' if abs(y) < 100 else '%d') % y)
    has('month', b=MON[m-1][:3], B=MON[m-1], m='%d' % m)
    has('day', d='%d' % day, D='%02d' % day)
    has('hour', H='%02d' % h, I='%02d' % (12 if h % 12 == 0 else h % 12), p='am' if h < 12 else 'pm', P='AM' if h < 12 else 'PM')
    has('minute', M='%02d' % mi); has('second', S='%02d' % s)
    if 'year' in have and 'month' in have and 'day' in have: t['j'] = '%d' % (C.daynum(cal, y, m, day, y) + 1)
    t['v'] = '%d' % value; t['V'] = str(value)
    return t

FMT = ['$' + c for c in 'bBdDHIjmMpPSyaYvV'] + ['$d/$m/$y', '$H:$M:$S $d $b $a', '$$$d$$', '${a}${m}${D}', '$b $d, $Y $H:$M:$S', '$j of $a', '$B, $I $p $P']
def expand(fmt, t):
    import re
    return re.sub(r'\$(\$|[a-zA-Z]|\{[a-zA-Z]\})', lambda k: '$' if k.group(1) == '$' else t[k.group(1).strip('{}')], fmt)

# forms that determine the date and are documented to be understood (n: fields they need to be zero)
def forms(d):
    y, m, day, h, mi, s = d
    b = MON[m-1][:3]
    out = []
    if (h, mi, s) == (0, 0, 0): out += ['$d $b $a', '$D $b $a', '$a-%02d-$D' % m]
    if (h, mi, s) == (0, 0, 0) and day == 1: out += ['$a-%02d' % m]
    if (h, mi, s) == (0, 0, 0) and day == 1 and m == 1: out += ['$a']
    if s == 0: out += ['$H:$M $d $b $a', '%d:$M $d $b $a' % h, '$a-%02d-${D}T$H:$M' % m]
    out += ['$H:$M:$S $d $b $a', '$H:$M:$S $D $b $a', '%d:$M:$S $d $b $a' % h, '$H:$M:$S   $d $b $a', '$a-%02d-${D}T$H:$M:$S' % m]
    return out

def axis(cal, ref_, units):
    return C.cls(cal)([0.], units=units, startdate=dict(zip(C.FIELDS, ref_)))

def fmtcheck(rec, ax, cal, r, u, d, fmts, roundtrip=True, jig=0.):
    base = C.seconds(cal, r); sec = C.seconds(cal, d)
    v = (sec - base + jig)/C.UNIT[u]
    if C.UNIT[u] == 1 and not jig: v = sec - base
    t = table(cal, d, v)
    for f in fmts:
        g, err = ref.attempt(lambda: ax.formatvalue(v, f)); rec.step()
        w = expand(f, t)
        rec.check(err is None and g == w, lambda: '%s from %s in %s: %r formatted with %r gives %r %s, expected %r' % (cal, r, u, v, f, g, err or '', w), 'directive:%s' % f[1:2] if len(f) == 2 else 'format')
    if not roundtrip: return
    for f in forms(d):
        g, err = ref.attempt(lambda: ax.formatvalue(v, f)); rec.step()
        if not rec.check(err is None and g == expand(f, t), lambda: '%s: %r formatted with %r gives %r %s' % (cal, d, f, g, err), 'format'): continue
        for txt in (g, g.lower(), g.upper()) if u == 'hours' else (g,):
            if txt != g and 't' in txt: continue            # the T of ISO dates
            b, err = ref.attempt(lambda: ax.str_as_val('time', txt)); rec.step()
            rec.check(err is None and abs(b*C.UNIT[u] - (sec - base)) < 1e-2, lambda: '%s from %s in %s: %r is read as %r %s, expected %r' % (cal, r, u, txt, b, err or '', v), 'parse')
    if 'j' in t:
        for f, need in (('%d-%03d' % (d[0], int(t['j'])), 0), ('%d-%03dT%02d:%02d' % (d[0], int(t['j']), d[3], d[4]), 1), ('%d-%03dT%02d:%02d:%02d' % (d[0], int(t['j']), *d[3:]), 2)):
            if need == 0 and any(d[3:]) or need == 1 and d[5]: continue
            b, err = ref.attempt(lambda: ax.str_as_val('time', f)); rec.step()
            rec.check(err is None and abs(b*C.UNIT[u] - (sec - base)) < 1e-2, lambda: '%s from %s in %s: %r is read as %r %s, expected %r' % (cal, r, u, f, b, err or '', v), 'parse')

def year(case, rec):
    _, cal, y, tier = case
    Y, M, D = C.walk(cal, y, y+1)
    tods = [(0, 0, 0), (6, 0, 0), (12, 0, 0), (23, 59, 59), (0, 0, 1), (11, 59, 30)]
    texts = {}
    axes = {(r, u): axis(cal, r, u) for r in REFS for u in C.UNIT}
    for i, (m, d) in enumerate(zip(M.tolist(), D.tolist())):
        for k, (r, u) in enumerate(axes):
            for j in (range(6) if tier == 'thorough' else [(i + k) % 6]):
                if tier != 'thorough' and (i + k) % 7: continue
                dt = (y, m, d) + tods[j]
                rec.state(cal, dt, u)
                fmtcheck(rec, axes[r, u], cal, r, u, dt, FMT, jig=(0, .4, -.4)[i % 3] if y > 1000 else 0)
        # no two days of the year share a text
        ax = axes[REFS[0], 'days']
        for f in ('$d $b $a', '$j $a', '$a-$m-$d'):
            g = ax.formatvalue(C.seconds(cal, (y, m, d))//86400, f); rec.step()
            rec.check((f, g) not in texts, lambda: '%s: %s and %s are both formatted as %r' % (cal, texts[f, g], (y, m, d), g), 'injective')
            texts[f, g] = (y, m, d)

def times(case, rec):
    _, cal, y, tier = case
    L = C.monthlen(cal, y, 2)
    seen = {}
    for md in ((1, 1), (2, 28), (2, L), (3, 1), (6, 30), (10, 5), (12, C.monthlen(cal, y, 12))):
        for h in range(24):
            for mi, s in ((0, 0), (0, 1), (30, 0), (59, 59), (7, 8)):
                dt = (y,) + md + (h, mi, s)
                for r in REFS:
                    for u in C.UNIT:
                        if tier != 'thorough' and (h + mi + len(u)) % 4: continue
                        rec.state(cal, dt)
                        fmtcheck(rec, axis(cal, r, u), cal, r, u, dt, FMT)
                f = '$H:$M:$S $d $b $a'; g = axis(cal, REFS[0], 'seconds').formatvalue(C.seconds(cal, dt), f); rec.step()
                rec.check(g not in seen or seen[g] == dt, lambda: '%s and %s are both formatted as %r' % (seen[g], dt, g), 'injective'); seen[g] = dt

BAD = ['', ' ', 'x', 'Jan', '12 Foo 2000', '12 2000', '1 Jan', '2000-1-1', '2000-01-1', '2000-01-01T1', '2000-01-01T10', '2000-01-01T1:00', '2000-01-01 10:00', '1/2/2000', '1 Jan 2000 06:00', '1 Jan 2000x', 'x1 Jan 2000', '-1 Jan 2000',
       '1 Jan -5', '-5', '06:00', '6:0 1 Jan 2000', '06:00:0 1 Jan 2000', '1:2:3 1 Jan 2000', '123 Jan 2000', '2000-', '2000-01-', '2000-1', '20 00', '1. Jan 2000', '1-Jan-2000', 'None', '12:00:00:00 1 Jan 2000', '2000.5']
def parse(case, rec):
    _, cal = case
    for u in C.UNIT:
        ax = axis(cal, REFS[0], u)
        for s in BAD:
            g, err = ref.attempt(lambda: ax.str_as_val('time', s)); rec.step()
            rec.check(isinstance(err, ValueError), lambda: '%s: %r is read as %r %r instead of a ValueError' % (cal, s, g, err), 'reject')
            if isinstance(err, ValueError): rec.check('%s' not in str(err) and s.strip() in str(err) or 'literal' in str(err), lambda: '%s: the error about %r does not name it: %s' % (cal, s, err), 'message')
        for m in range(1, 13):
            for d in range(1, C.monthlen(cal, 2000, m)+1):
                for y in (0, 5, 99, 2000, 12345):
                    if y == 0 and cal == 'std': pass
                    for b in (MON[m-1][:3], MON[m-1][:3].lower(), MON[m-1][:3].upper()):
                        if d > C.monthlen(cal, y, m): continue
                        s = '%d %s %d' % (d, b, y)
                        g, err = ref.attempt(lambda: ax.str_as_date('time', s)); rec.step()
                        rec.check(err is None and g == dict(year=y, month=m, day=d), lambda: '%s: %r is read as %s %r' % (cal, s, g, err), 'fields')
                        s = '01:02:03 ' + s
                        g, err = ref.attempt(lambda: ax.str_as_date('time', s)); rec.step()
                        rec.check(err is None and g == dict(year=y, month=m, day=d, hour=1, minute=2, second=3), lambda: '%s: %r is read as %s %r' % (cal, s, g, err), 'fields')
                rec.state(cal, m, d)

SUB = [('year',), ('year', 'month'), ('year', 'month', 'day'), ('year', 'month', 'day', 'hour'), ('month',), ('month', 'day'), ('month', 'day', 'hour'), ('hour',), ('hour', 'minute'), ('year', 'month', 'day', 'hour', 'minute')]
def subset(case, rec):
    _, cal = case
    for have in SUB:
        ds = []
        for m in (range(1, 13) if 'month' in have else [1]):
            for day in (range(1, C.monthlen(cal, 2000 if 'year' in have else 0, m)+1) if 'day' in have else [1]):
                for h in ((0, 11, 12, 23) if 'hour' in have else [0]):
                    for mi in ((0, 59) if 'minute' in have else [0]): ds.append((2000 if 'year' in have else 0, m, day, h, mi, 0))
        kw = {f: np.array([d[C.FIELDS.index(f)] for d in ds]) for f in have}
        ax, err = ref.attempt(lambda: C.cls(cal)(units='hours', **kw)); rec.step()
        if not rec.check(err is None, lambda: '%s with fields %s: %r' % (cal, have, err), 'subset'): continue
        for i, d in enumerate(ds):
            v = ax.values[i]; t = table(cal, d, v, have); rec.state(cal, have, d)
            for f in FMT:
                if 'j' in f and 'j' not in t: continue
                g, err = ref.attempt(lambda: ax.formatvalue(v, f)); rec.step()
                w = expand(f, t)
                rec.check(err is None and g == w, lambda: '%s with fields %s: %s formatted with %r gives %r %r, expected %r' % (cal, have, d, f, g, err, w), 'subset')
            # the day of the year needs the year; where it is unknown the directive must still not fail
            g, err = ref.attempt(lambda: ax.formatvalue(v, '$j')); rec.step()
            rec.check(err is None, lambda: '%s with fields %s: $j of %s raises %r' % (cal, have, d, err), 'subset')

def yearless(case, rec):
    import pygeode as pyg
    for u, f in C.UNIT.items():
        for r in ((1, 0, 0, 0), (0, 0, 0, 0), (30, 12, 30, 5)):
            ax = pyg.Yearless([0.], units=u, startdate=dict(zip(C.fields('yearless'), r)))
            base = C.seconds('yearless', r)
            for day in list(range(-3, 130)) + [365, 999, 1000, 36525]:
                for h, mi, s in ((0, 0, 0), (0, 0, 1), (11, 59, 59), (12, 0, 0), (23, 30, 0), (6, 5, 4)):
                    sec = C.seconds('yearless', (day, h, mi, s)); v = (sec - base)/f
                    t = table('m365', (0, 1, day, h, mi, s), v, C.fields('yearless'))
                    rec.state(u, r, day, h)
                    for fm in FMT + ['day $d, $H:$M:$S', None]:
                        if fm and 'j' in fm: continue
                        g, err = ref.attempt(lambda: ax.formatvalue(v, fm)); rec.step()
                        w = expand(fm or 'day $d, $H:$M:$S', t)
                        rec.check(err is None and g == w, lambda: 'day count from %s in %s: %r formatted with %r gives %r %r, expected %r' % (r, u, v, fm, g, err, w), 'yearless')
                    if day < 0: continue
                    for fm in ['$H:$M:$S $d', '%d:$M:$S  $d' % h, '${d}T$H:$M:$S'] + (['$H:$M $d', '${d}T$H:$M'] if s == 0 else []) + (['$d'] if (h, mi, s) == (0, 0, 0) else []):
                        x = ax.formatvalue(v, fm)
                        b, err = ref.attempt(lambda: ax.str_as_val('time', x)); rec.step()
                        rec.check(err is None and abs(b*f - (sec - base)) < 1e-2, lambda: 'day count from %s in %s: %r is read as %r %r, expected %r' % (r, u, x, b, err, v), 'yearless')
            for s in ('', 'x', '1 Jan 2000', '-1', '06:00', '1T2', '1 2', '1.5', '5 06:00'):
                g, err = ref.attempt(lambda: ax.str_as_val('time', s)); rec.step()
                rec.check(isinstance(err, ValueError), lambda: 'day count: %r is read as %r %r' % (s, g, err), 'reject')

def season(case, rec):
    _, cal, y0 = case
    from pygeode.timeaxis import SeasonalTAxes
    cls = SeasonalTAxes[C.cls(cal)]
    Y, M, D = C.walk(cal, y0, y0 + 3)
    for r in ((y0, 1, 1), (y0, 12, 16), (y0+1, 7, 4)):
        for q, u in enumerate(C.UNIT):
            ax = cls(values=np.array([0., 400.*86400/C.UNIT[u]]), units=u, startdate=dict(zip(C.FIELDS, r)))
            for i in range(q % 2, len(Y), 2):
                y, m, d = int(Y[i]), int(M[i]), int(D[i])
                v = (C.seconds(cal, (y, m, d)) - C.seconds(cal, r))/C.UNIT[u]
                S = ['DJF', 'MAM', 'JJA', 'SON'][m % 12 // 3]; yy = y + (m == 12)
                rec.state(cal, y, m, d)
                for f, w in (('$s', S), ('$y', '%02d' % (yy % 100)), ('$Y', '%d' % yy), ('$s $Y$$', '%s %d$' % (S, yy)), (None, '%s %02d' % (S, yy % 100)), ('$v|$V', '%d|%s' % (v, v))):
                    g, err = ref.attempt(lambda: ax.formatvalue(v, f)); rec.step()
                    rec.check(err is None and g == w, lambda: 'seasonal %s: %s formatted with %r gives %r %r, expected %r' % (cal, (y, m, d), f, g, err, w), 'season')

def trange(case, rec):

    from fractions import Fraction
    from pygeode import timeaxis as ta
    _, cal, u, tier = case
    rf = dict(std=ta.standardtimerange, m365=ta.modeltime365range, m360=ta.modeltime360range)[cal]
    nf = dict(std=ta.standardtimen, m365=ta.modeltime365n, m360=ta.modeltime360n)[cal]
    per = Fraction(C.UNIT[u])
    N = 200 if tier == 'thorough' else 24
    steps = [1, 2, 3, 7, .5, .25, .125, .1, .2, .3, .7, 1.1, 1/3., 1/7.] if u == 'days' else [1, 2, 3, 7, 12, .5, .25, .1, .2, .3, .6, .7, 1.1, 1/3.] if u == 'hours' else [1, 2, 7, 30, .5, .1, .2, .3, .7] if u == 'minutes' else [1, 2, 7, 60, 3600]
    txt = lambda d: '%02d:%02d:%02d %d %s %d' % (d[3], d[4], d[5], d[2], MON[d[1]-1][:3], d[0])
    for s in ((2000, 1, 1, 0, 0, 0), (1999, 12, 30, 23, 59, 59), (2000, 2, 28, 12, 0, 0), (1900, 2, 28, 0, 0, 0), (99, 3, 1, 6, 30, 0), (2000, 12, 30, 18, 0, 0)):
        S = C.seconds(cal, s)
        for r in (None, (1990, 7, 4, 5, 6, 7)):
            R = S if r is None else C.seconds(cal, r)
            for st in steps:
                for n in range(1, N+1):
                    a, err = ref.attempt(lambda: nf(txt(s), n, st, units=u, ref=None if r is None else txt(r))); rec.step()
                    want = (S - R)/float(per) + np.arange(n)*st
                    tol = .501/float(per)   # times are kept to the second
                    ok = err is None and len(a) == n and np.allclose(a.values, want, rtol=0, atol=tol)
                    rec.check(ok, lambda: '%s: %d times from %s every %s %s (reference %s): %r %s' % (cal, n, s, st, u, r, err, None if a is None else (len(a), a.values[:3], a.values[-2:])), 'n')
                    if ok and n in (1, 2, N):
                        got = [tuple(int(a.auxarrays[k][i]) for k in C.FIELDS) for i in np.arange(n)] if set(a.auxarrays) == set(C.FIELDS) else None
                        w = [C.date(cal, R + int(np.round(v*float(per)))) for v in a.values]
                        rec.check(got == w, lambda: '%s: dates %s, expected %s' % (cal, got, w), 'n')
                    # a range to a date the given number of whole seconds later: as many steps as fit before it
                    span = Fraction(st).limit_denominator(1000)*n*per
                    if span.denominator != 1: continue
                    E = S + int(span); e = C.date(cal, E)
                    if cal == 'std' and e[0] < 1: continue
                    for inc in (False, True):
                        a, err = ref.attempt(lambda: rf(txt(s), txt(e), st, units=u, ref=None if r is None else txt(r), inc=inc)); rec.step()
                        want = (S - R)/float(per) + np.arange(n + inc)*st
                        ok = err is None and len(a) == len(want) and np.allclose(a.values, want, rtol=0, atol=tol)
                        rec.check(ok, lambda: '%s: range from %s to %s every %s %s (reference %s, inc %s): %r %s, expected %d times' % (cal, s, e, st, u, r, inc, err, None if a is None else (len(a), a.values[:3], a.values[-2:]), n + inc), 'range:inc' if inc else 'range')
        rec.state(cal, u, s)
    # step that does not divide the interval: the end is never passed
    s = (2000, 1, 1, 0, 0, 0)
    for st in (2, 3, 7):
        for n in (1, 2, 4, 5, 6, 8, 20, 22):
            for inc in (False, True):
                e = C.date(cal, C.seconds(cal, s) + n*C.UNIT[u])
                a, err = ref.attempt(lambda: rf(txt(s), txt(e), st, units=u, inc=inc)); rec.step()
                want = np.array([k for k in np.arange(0, n+1, st) if k < n or inc])
                rec.check(err is None and len(a) == len(want) and np.allclose(a.values, want), lambda: '%s: range of %d %s in steps of %d, inc %s: %r %s' % (cal, n, u, st, inc, err, None if a is None else a.values), 'range:inc' if inc else 'range')
    if cal == 'm365' and u == 'days':
        for un in C.UNIT:
            for st in steps:
                for n in np.arange(1, 31):
                    for d0 in (1, 0, 5):
                        a, err = ref.attempt(lambda: ta.yearlessn(int(n), d0, st, un)); rec.step()
                        rec.check(err is None and len(a) == n and np.allclose(a.values, np.arange(n)*st, rtol=0, atol=.501/C.UNIT[un]) and a.startdate['day'] == d0, lambda: 'yearlessn(%d, %d, %s, %s): %r %s' % (n, d0, st, un, err, None if a is None else a.values), 'n')
