"""P05: selecting dates picks exactly the matching times."""
import itertools
import numpy as np
from . import ref, cal as C

BOUND = {
 'quick': '4 calendars x 3 (unit, reference date) pairs x 7 spacings x 3 orders (7 times each) x every probe date (each time, its neighbours a second and half a step away, period starts) in every text form that '
          'denotes it: single, list, complement, and every ordered pair as interval, through axis and variable; every field value and interval of values; field with interval combinations',
 'thorough': 'as quick with 16 (unit, reference date) pairs and 14 times'}

MON = ['', 'Jan', 'Feb', 'Mar', 'Apr', 'May', 'Jun', 'Jul', 'Aug', 'Sep', 'Oct', 'Nov', 'Dec']

def forms(cal, d):
    """[(text, date it denotes)] for every documented way to write a date that names d, or a period that d is in"""
    if cal == 'yearless':
        D, h, mi, s = d
        out = [('%d' % D, (D, 0, 0, 0)), ('%dT%02d:%02d' % (D, h, mi), (D, h, mi, 0)), ('%dT%02d:%02d:%02d' % d, d), ('%02d:%02d %d' % (h, mi, D), (D, h, mi, 0))]
        return [f for f in out if D >= 0]
    y, m, D, h, mi, s = d
    out = [('%d' % y, (y, 1, 1, 0, 0, 0)), ('%d-%02d' % (y, m), (y, m, 1, 0, 0, 0)), ('%d-%02d-%02d' % (y, m, D), (y, m, D, 0, 0, 0)), ('%d-%02d-%02dT%02d:%02d' % (y, m, D, h, mi), (y, m, D, h, mi, 0)),
           ('%d-%02d-%02dT%02d:%02d:%02d' % d, d), ('%d %s %d' % (D, MON[m], y), (y, m, D, 0, 0, 0)), ('%d:%02d %d %s %d' % (h, mi, D, MON[m].upper(), y), (y, m, D, h, mi, 0)),
           ('%02d:%02d:%02d %d %s %d' % (h, mi, s, D, MON[m].lower(), y), d)]
    doy = C.daynum(cal, y, m, D, y) + 1
    out.append(('%d-%03d' % (y, doy), (y, m, D, 0, 0, 0))); out.append(('%d-%03dT%02d:%02d' % (y, doy, h, mi), (y, m, D, h, mi, 0)))
    return out

def times(cal, sp, n):
    if cal == 'yearless': t0 = C.seconds(cal, (30, 22, 0, 0))
    else: t0 = C.seconds(cal, (2000, 2, 27, 22, 0, 0))
    st = dict(sec=1, min=420, hour=6*3600, day=86400, week=86400*7)
    if sp in st: return [t0 + k*st[sp] for k in range(n)]
    if sp == 'irr': return [t0 + 86400*k*(k+1)//2 + 1800*k for k in range(n)]
    if sp == 'month':
        if cal == 'yearless': return [t0 + k*30*86400 for k in range(n)]
        return [C.seconds(cal, (1999, 10 + k, 1, 0, 0, 0)) for k in range(n)]

def confs(cal, tier):
    if cal == 'yearless': c = [('days', (0, 0, 0, 0)), ('hours', (31, 13, 30, 0)), ('minutes', (1, 0, 0, 0)), ('seconds', (30, 0, 0, 0))]
    else: c = [('days', (1850, 7, 4, 6, 0, 0)), ('hours', (2000, 2, 28, 23, 59, 59)), ('minutes', (2001, 1, 1, 0, 0, 0)), ('seconds', (1970, 1, 1, 0, 0, 0))]
    if tier == 'quick': c = c[:3]
    if tier == 'thorough': c = [(u, r) for u in C.UNIT for r in sorted({x[1] for x in c})]
    return c

SP = ('sec', 'min', 'hour', 'day', 'week', 'irr', 'month')

def cases(tier):
    out = []
    for cal in ('std', 'm365', 'm360', 'yearless'):
        for i in range(len(confs(cal, tier))):
            for sp in SP:
                for o in ('inc', 'dec', 'mix'):
                    for what in ('date', 'field'): out.append([what, cal, i, sp, o, tier])
    return out

def run(case, rec):
    import pygeode as pyg
    what, cal, i, sp, o, tier = case
    n = 7 if tier == 'quick' else 14
    T = times(cal, sp, n)
    order = dict(inc=list(range(n)), dec=list(range(n))[::-1], mix=[(5*k + 3) % n for k in range(n)])[o]
    assert sorted(order) == list(range(n))
    T = [T[k] for k in order]
    u, r = confs(cal, tier)[i]; F = C.fields(cal); st = dict(zip(F, r)); R = C.seconds(cal, r)
    ax = C.cls(cal)(np.array([(t - R)/C.UNIT[u] for t in T]), units=u, startdate=st)
    v = pyg.Var((pyg.Lon(2), ax), values=np.arange(2*n).reshape(2, n)*1., name='v')
    T = np.array(T)
    def want(lo, hi): return np.flatnonzero((T >= lo) & (T <= hi)).tolist()
    def pos(a): return sorted(int(x) for x in a.values*0) and None
    def sel(kw, viavar):
        if viavar:
            w = v(**kw); a = w.axes[1]; p = [int(x) for x in w[:][0]]
            assert (w[:][1] == np.array(p) + n).all()
        else:
            a = ax(**kw); p = None
        sec = [C.seconds(cal, [int(a.auxarrays[f][k]) for f in F]) for k in range(len(a))]
        q = [int(np.flatnonzero(T == s)[0]) if (T == s).any() else -1 for s in sec]
        if p is not None: assert p == q, (p, q)
        return q
    def expect(kw, w, key, ties=()):
        for viavar in ((True, False) if hash(str(kw)) % 16 == 0 else (False,)):
            rec.step()
            g, err = ref.attempt(lambda: sel(kw, viavar))
            if not w:
                # an empty selection: reported as an error or empty
                rec.check(err is not None or g == [], lambda: '%s in %s since %s, %s of %s: %s keeps %s, expected none' % (cal, u, r, sp, o, kw, g), key + ':empty'); continue
            ok = err is None and (g == w or any(g == x for x in ties))
            rec.state(cal, sp, o, tuple(w))
            rec.check(ok, lambda: '%s in %s since %s, %s %s: %s keeps positions %s (%r), expected %s' % (cal, u, r, sp, o, kw, g, err, w), key)
    if what == 'date':
        srt = sorted(T.tolist()); step = srt[1] - srt[0]
        probes = []
        for k, t in enumerate(srt):
            probes.append(t)
            if k % 3 == 0: probes += [t+1, t-1, t + step//2 + 1]
        probes += [srt[0] - step, srt[-1] + step]
        texts = {}
        for p in probes:
            for txt, d in forms(cal, C.date(cal, p)):
                s = C.seconds(cal, d)
                assert texts.setdefault(txt, s) == s
        def nearest(s):
            d = np.abs(T - s); m = d.min(); k = np.flatnonzero(d == m)
            return [[int(x)] for x in k]
        for txt, s in texts.items():
            w = nearest(s)
            expect(dict(time=txt), w[0], 'single', w)
            if len(w) == 1: expect(dict(n_time=txt), [k for k in range(n) if [k] not in w], 'complement')
        L = list(texts.items())
        for j in range(0, len(L), 5):
            trio = [L[j], L[(j*3+1) % len(L)], L[(j*7+2) % len(L)]]
            if any(len(nearest(s)) > 1 for _, s in trio): continue
            expect(dict(l_time=[x for x, _ in trio]), sorted({nearest(s)[0][0] for _, s in trio}), 'list')
        # intervals: every ordered pair of distinct instants; the text form varies with the pair
        byt = {}
        for txt, s in L: byt.setdefault(s, []).append(txt)
        inst = sorted(byt)
        for a, s in enumerate(inst):
            for b, e in enumerate(inst):
                x = byt[s][(a+b) % len(byt[s])]; y = byt[e][(a*3+b) % len(byt[e])]
                w = want(min(s, e), max(s, e))
                expect(dict(time=(x, y)), w, 'interval')
                if (a + b) % 9 == 0 and w: expect(dict(n_time=[x, y]), [k for k in range(n) if k not in w], 'notinterval')
                if (a + b) % 7 == 0 and cal != 'yearless':
                    # interval and field together
                    for f in ('month', 'hour'):
                        fv = np.array([C.date(cal, int(t))[F.index(f)] for t in T])
                        expect({'time': (x, y), f: int(fv[0])}, [k for k in w if fv[k] == fv[0]], 'both')
        # every form names the date it spells
        for txt, s in L:
            d = ax.str_as_val('time', txt); rec.step()
            rec.check(abs(d*C.UNIT[u] - (s - R)) < 1e-3, lambda: '%s: %r is read as %r %s since %s' % (cal, txt, d, u, r), 'parse')
    else:
        D = [C.date(cal, int(t)) for t in T]
        for j, f in enumerate(F):
            fv = np.array([d[j] for d in D]); vals = sorted(set(fv.tolist()))
            probe = vals + [vals[0]-1, vals[-1]+1]
            for x in probe:
                expect({f: x}, np.flatnonzero(fv == x).tolist(), 'field')
                expect({'n_' + f: x}, np.flatnonzero(fv != x).tolist(), 'field')
            for x, y in itertools.product(probe, probe):
                expect({f: (x, y)}, np.flatnonzero((fv >= min(x, y)) & (fv <= max(x, y))).tolist(), 'fieldrange')
            for k in range(0, len(vals), 2):
                ls = [vals[k], vals[(k*5+1) % len(vals)], vals[(k*3+2) % len(vals)]]
                expect({'l_' + f: ls}, np.flatnonzero(np.isin(fv, ls)).tolist(), 'fieldlist')
                expect({'ln_' + f: ls}, np.flatnonzero(~np.isin(fv, ls)).tolist(), 'fieldlist')
        for (j, f), (k, g) in itertools.combinations(enumerate(F), 2):
            fv = np.array([d[j] for d in D]); gv = np.array([d[k] for d in D])
            for x in sorted(set(fv.tolist()))[:4]:
                for y in sorted(set(gv.tolist()))[:4]:
                    expect({f: x, g: y}, np.flatnonzero((fv == x) & (gv == y)).tolist(), 'fields')
