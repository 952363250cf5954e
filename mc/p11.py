"""P11: calendar time axes mean the same dates in any unit and reference date."""
import itertools
import numpy as np
from . import ref, cal as C

BOUND = {
 'quick': '4 calendars x 12 (unit, reference date) pairs squared x every pair of arrangements of up to 3 of 4 dates (and all orders of 4): equality, mapping; reltime, conform_values, delta, '
          'slicing, concatenation and arithmetic of axes that differ in unit and reference date; dates displaced by 1 s .. 1 year at every position, for years up to 120000; field subsets',
 'thorough': 'as quick with arrangements of up to 4 of 5 dates and 24 (unit, reference date) pairs'}

CALS = ('std', 'm365', 'm360', 'yearless')
def dates(cal, n=4, fam='near'):
    if cal == 'yearless': return [(3, 0, 0, 0), (-1, 18, 30, 0), (3, 0, 0, 1), (40, 12, 0, 0), (400, 23, 59, 59)][:n]
    y = dict(near=2000, far=120000, neg=-3)[fam]
    return [(y, 2, 28, 0, 0, 0), (y-1, 12, 30, 18, 30, 0), (y, 3, 1, 0, 0, 1), (y, 2, 28, 0, 1, 0), (y+4, 1, 1, 23, 59, 59)][:n]
def confs(cal, tier):
    refs = [(2000, 1, 1, 0, 0, 0), (1850, 7, 4, 6, 0, 0), (2004, 2, 28, 23, 59, 59), (0, 1, 1, 0, 0, 0)] if cal != 'yearless' else [(0, 0, 0, 0), (1, 0, 0, 0), (100, 13, 7, 9), (-5, 0, 0, 30)]
    if tier == 'quick': refs = refs[:3]
    if tier == 'thorough': refs += [(1, 3, 1, 12, 0, 0), (-400, 12, 30, 0, 0, 1)] if cal != 'yearless' else [(7, 1, 0, 0), (2, 0, 0, 0)]
    return [(u, r) for u in C.UNIT for r in refs]

def arr(n, L): return [c for r in range(1, L+1) for c in itertools.permutations(range(n), r)] + (list(itertools.permutations(range(n))) if n > L else [])

def mk(cal, ds, conf, how='values'):
    u, r = conf; F = C.fields(cal); st = dict(zip(F, r))
    if how == 'values':
        v = [(C.seconds(cal, d) - C.seconds(cal, r))/C.UNIT[u] for d in ds]
        return C.cls(cal)(np.array(v), units=u, startdate=st)
    return C.cls(cal)(units=u, startdate=st, **{f: np.array([d[i] for d in ds]) for i, f in enumerate(F)})

def got(cal, a):
    F = C.fields(cal)
    return list(zip(*[[int(x) for x in a.auxarrays[f]] for f in F]))

def cases(tier):
    out = []
    for cal in CALS:
        cs = confs(cal, tier)
        for i in range(len(cs)): out.append(['pair', cal, i, tier])
    for cal in CALS:
        for fam in ('near', 'far', 'neg'):
            if cal == 'yearless' and fam != 'near': continue
            out.append(['shift', cal, fam])
    for cal in CALS:
        for i in range(4): out.append(['restate', cal, i, tier])
    for cal in CALS: out.append(['concat', cal])
    for cal in CALS: out.append(['fields', cal])
    for cal in CALS: out.append(['arith', cal])
    return out

def run(case, rec):
    import pygeode as pyg
    from pygeode import timeutils as tu
    t, cal = case[:2]
    F = C.fields(cal)
    if t == 'pair':
        tier = case[3]; cs = confs(cal, tier); c1 = cs[case[2]]
        n, L = (4, 3) if tier == 'quick' else (5, 4)
        D = dates(cal, n); S = arr(n, L)
        if tier == 'thorough': S = [s for s in S if len(s) < 4] + [s for i, s in enumerate(S) if len(s) >= 4 and i % 5 == 0]
        A = [mk(cal, [D[i] for i in s], c1) for s in S]
        for a, s in zip(A, S):
            rec.step(); rec.check(got(cal, a) == [D[i] for i in s], lambda: '%s %s: axis of %s holds %s' % (cal, c1, [D[i] for i in s], got(cal, a)), 'dates')
        for c2 in cs:
            B = [mk(cal, [D[i] for i in s], c2, 'fields' if c2[0] == 'hours' else 'values') for s in S]
            for a, s in zip(A, S):
                for b, q in zip(B, S):
                    rec.step()
                    e = a == b
                    rec.check(e == (s == q), lambda: '%s %s in %s and %s in %s: equal is %s' % (cal, s, c1, q, c2, e), 'eq')
                    if len(s) > 2 and len(q) > 2 and s > q: continue
                    m = a.map_to(b)
                    want = [s.index(k) for k in q if k in s]
                    rec.state(cal, c1, c2, tuple(want))
                    rec.check(m is not None and list(m) == want, lambda: '%s: mapping dates %s in %s to %s in %s gave %s' % (cal, s, c1, q, c2, m), 'map')
    elif t == 'shift':
        fam = case[2]
        D = dates(cal, 5, fam)
        steps = [1, -1, 60, -3600, 86400, 86400*30]
        for c1 in confs(cal, 'quick')[::3]:
            for n in (1, 2, 5):
                a = mk(cal, D[:n], c1)
                for k in range(n):
                    for st in steps:
                        E = list(D[:n]); E[k] = C.date(cal, C.seconds(cal, E[k]) + st)
                        for c2 in (c1, confs(cal, 'quick')[5]):
                            b = mk(cal, E, c2, 'fields')
                            rec.step(); rec.state(cal, fam, n, k, st)
                            same = D[:n] == E
                            rec.check((a == b) == same and (a != b) == (not same), lambda: '%s: %s and %s: equal is %s' % (cal, D[:n], E, a == b), 'shift:eq')
                            m = a.map_to(b); want = [D[:n].index(x) for x in E if x in D[:n]]
                            rec.check(list(m) == want, lambda: '%s: mapping %s to %s gave %s' % (cal, D[:n], E, m), 'shift:map')
                if cal != 'yearless' and n > 1:
                    for dy in (1, -1, 100):
                        for k in range(n):
                            E = list(D[:n]); E[k] = (E[k][0]+dy,) + E[k][1:]
                            b = mk(cal, E, c1, 'fields'); rec.step()
                            rec.check(not a == b, lambda: '%s: %s and %s are equal' % (cal, D[:n], E), 'shift:eq')
    elif t == 'restate':
        tier = case[3]; cs = confs(cal, tier)
        D = dates(cal, 5)
        for c1 in cs[case[2]::4]:
            a = mk(cal, D, c1)
            for u, r in cs:
                st = dict(zip(F, r)); f = C.UNIT[u]
                want = np.array([(C.seconds(cal, d) - C.seconds(cal, r))/f for d in D])
                g = tu.reltime(a, startdate=st, units=u); rec.step(); rec.state(cal, c1, u, r)
                rec.check(np.allclose(g, want, rtol=1e-12, atol=1e-9), lambda: '%s: reltime of %s since %s in %s is %s' % (cal, D, r, u, g), 'reltime')
                g = tu.reltime(a, units=u); w = np.array([(C.seconds(cal, d) - C.seconds(cal, c1[1]))/f for d in D])
                rec.check(np.allclose(g, w, rtol=1e-12, atol=1e-9), lambda: '%s: reltime in %s is %s' % (cal, u, g), 'reltime')
                # deprecated method forms mean the same
                rec.check(np.allclose(a.reltime(startdate=st, units=u), want, rtol=1e-12, atol=1e-9), lambda: 'reltime method', 'reltime')
                b = mk(cal, D[1:4], (u, r))
                for x, y, dx, dy in ((a, b, D, D[1:4]), (b, a, D[1:4], D)):
                    p, q = tu.conform_values(x, y); rec.step()
                    rec.check(got(cal, p) == dx and got(cal, q) == dy, lambda: '%s: conform_values changed the dates: %s %s' % (cal, got(cal, p), got(cal, q)), 'conform')
                    base = [C.seconds(cal, d) for d in dx + dy]; v = list(p.values) + list(q.values)
                    ok = p.units == q.units
                    f0 = C.UNIT[q.units]
                    rec.check(ok and np.allclose((np.array(v) - v[0])*f0, np.array(base) - base[0], atol=1e-3, rtol=1e-12), lambda: '%s: conformed values %s %s are not comparable' % (cal, p.values, q.values), 'conform')
                # intervals
                for step in (1, 60, 86400, 5400):
                    if step % 60 and u in ('hours', 'days'): continue
                    for n in (2, 3, 5):
                        E = [C.date(cal, C.seconds(cal, D[0]) + k*step) for k in range(n)]
                        d = tu.delta(mk(cal, E, c1), units=u); rec.step()
                        rec.check(abs(d - step/f) <= 1e-9*abs(step/f) + 1e-12*np.abs(a.date_as_val(units=u)).max(), lambda: '%s: interval of %s in %s is %s' % (cal, E, u, d), 'delta')
            # parts of the axis keep dates and mean the same values
            for s in ([slice(None, None, -1)], [slice(1, None, 2)], [[3, 0, 2]], [[2]], [np.array([True, False, True, True, False])]):
                s = s[0]; b = a.slice[s]
                want = np.array(D, dtype=object)[s].tolist() if not isinstance(s, list) else [list(D[i]) for i in s]
                rec.step()
                ok = [list(x) for x in got(cal, b)] == [list(x) for x in want]
                f = C.UNIT[b.units]; r = [b.startdate[k] for k in F]
                ok2 = np.allclose(b.values, [(C.seconds(cal, tuple(x)) - C.seconds(cal, r))/f for x in want], rtol=1e-12, atol=1e-9)
                rec.check(ok and ok2, lambda: '%s: part %s of %s has dates %s and values %s' % (cal, s, D, got(cal, b), b.values), 'slice')
            b = a.withnewvalues(a.values[::-1]); rec.step()
            rec.check(got(cal, b) == D[::-1], lambda: '%s: withnewvalues gives %s' % (cal, got(cal, b)), 'withnewvalues')
    elif t == 'concat':
        from pygeode.axis import concat
        D = dates(cal, 5); cs = confs(cal, 'quick')
        for c1, c2 in itertools.product(cs, cs):
            for p in ([[0], [1, 2]], [[4, 3], [2], [1, 0]], [[0, 1, 2, 3, 4], [0, 1]]):
                axs = [mk(cal, [D[i] for i in s], (c1, c2)[k % 2], ('values', 'fields')[k % 2]) for k, s in enumerate(p)]
                a = concat(axs); flat = [D[i] for s in p for i in s]
                rec.step(); rec.state(cal, c1, c2, len(a))
                rec.check(got(cal, a) == flat, lambda: '%s: joining %s and %s gives %s, expected %s' % (cal, c1, c2, got(cal, a), flat), 'concat')
                f = C.UNIT[a.units]; r = [int(a.startdate[k]) for k in F]
                rec.check(np.allclose(a.values*f, [C.seconds(cal, x) - C.seconds(cal, r) for x in flat], rtol=1e-12, atol=1e-3), lambda: '%s: joined values %s do not denote the dates' % (cal, a.values), 'concat')
    elif t == 'fields':
        # axes with only some of the fields (means, climatologies): equal exactly when all their fields are
        D = dates(cal, 4)
        subs = [s for s in ref.subsets(F, 1) if cal == 'yearless' or 'month' in s or 'year' in s or 'day' in s]
        axs = []
        for s in subs:
            if cal != 'yearless' and len(s) > 3: continue
            for sel in ((0, 1), (1, 0), (0,)):
                kw = {f: np.array([D[i][F.index(f)] for i in sel]) for f in s}
                for u, st in (('days', None), ('hours', None)):
                    axs.append((s, [tuple(D[i][F.index(f)] for f in s) for i in sel], C.cls(cal)(units=u, startdate=st, **kw)))
        for s, d, a in axs:
            for q, e, b in axs:
                rec.step()
                want = s == q and d == e
                rec.check((a == b) == want, lambda: '%s: fields %s of %s and %s of %s: equal is %s' % (cal, s, d, q, e, a == b), 'fields:eq')
                if not (len(set(d)) == len(d)): continue
                m = a.map_to(b)
                if not set(s) <= set(q): rec.check(m is None, lambda: '%s: fields %s map to %s' % (cal, s, q), 'fields:map'); continue
                common = [tuple(x[q.index(f)] for f in s) for x in e]
                w = [d.index(x) for x in common if x in d]; rec.state(cal, tuple(w))
                rec.check(list(m) == w, lambda: '%s: mapping fields %s %s to %s %s gave %s' % (cal, s, d, q, e, m), 'fields:map')
        if cal == 'yearless': return
        for k in (2, 3, 4):
            for c1, c2 in itertools.product(confs(cal, 'quick')[::2], confs(cal, 'quick')[1::2]):
                a = mk(cal, D, c1)
                b = C.cls(cal)(units=c2[0], startdate=dict(list(zip(F, c2[1]))[:k]), **{f: np.array([d[i] for d in D[1:]]) for i, f in enumerate(F[:k])})
                for x, y in ((a, b), (b, a)):
                    r, err = ref.attempt(lambda: tu.conform_values(x, y)); rec.step(); rec.state(cal, k, c1, c2)
                    if not rec.check(err is None, lambda: '%s: conform_values: %r' % (cal, err), 'conform:fields'): continue
                    p, q = r
                    rec.check(p == x and q == y, lambda: '%s: conforming %s and %s gives axes in another order' % (cal, sorted(x.auxarrays), sorted(y.auxarrays)), 'conform:order')
                    sec = [C.seconds(cal, tuple(d[:k if z is b else 6])) for z in (x, y) for d in (D[1:] if z is b else D)]
                    v = np.array(list(p.values) + list(q.values))*C.UNIT[p.units]
                    rec.check(p.units == q.units and np.allclose(v - v[0], np.array(sec) - sec[0], atol=1e-3, rtol=1e-12), lambda: '%s: conformed values %s %s are not comparable' % (cal, p.values, q.values), 'conform:fields')
    elif t == 'arith':
        D = dates(cal, 4); cs = confs(cal, 'quick'); S = arr(4, 4)
        S = [s for s in S if len(s) in (2, 4)]
        for c1, c2 in itertools.product(cs[::3], cs[1::4]):
            for s in S[::3]:
                a = mk(cal, [D[i] for i in s], c1); va = pyg.Var((a,), values=np.array([10.**i for i in s]), name='a')
                for q in S[::2]:
                    b = mk(cal, [D[i] for i in q], c2); vb = pyg.Var((b,), values=np.array([3*10.**i for i in q]), name='b')
                    r, err = ref.attempt(lambda: va + vb); rec.step()
                    if not (set(s) <= set(q) or set(q) <= set(s)):
                        rec.check(err is not None, lambda: '%s: %s + %s is not refused' % (cal, s, q), 'arith:refuse'); continue
                    rec.check(err is None, lambda: '%s: %s + %s raises %r' % (cal, s, q, err), 'arith')
                    if err is not None: continue
                    dd = got(cal, r.axes[0]); rec.state(cal, tuple(dd))
                    rec.check(sorted(dd) == sorted(D[i] for i in set(s) & set(q)) and np.allclose(r[:], [4*10.**D.index(x) for x in dd]), lambda: '%s: %s in %s + %s in %s gives %s at %s' % (cal, s, c1, q, c2, r[:], dd), 'arith')
