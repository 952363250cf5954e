"""P34: axis equality is an equivalence within tolerance; maps give exactly the positions of equal coordinates."""
import itertools
import numpy as np
from . import ref

BOUND = {
 'quick': 'all ordered pairs of a 150-axis catalogue (17 classes x coordinates, orders, lengths, names, auxiliary arrays and attributes, weights, dtypes, irrelevant metadata): equality against a '
          'specification, ==/!= and left/right agreement; displacement ladder of 13 relative sizes around the tolerance at every position of 4 families; map_to for every pair of ordered '
          'selections with repeats (length<=3 of 3, permutations of 4) on 9 kinds; time common_map and map_to for every pair of sequences with repeats (length<=4 of 3 dates) in 3 calendars',
 'thorough': 'as quick with sequences of length<=4 of 4 coordinates'}

def catalogue():
    """[(label, spec, axis)]; two axes are equal iff `related` classes, and equal specs"""
    import pygeode as pyg
    from pygeode.axis import DummyAxis, Station, Axis, NonCoordinateAxis
    out = []
    C = {'a': [1., 2., 3.], 'b': [1., 2., 4.], 'ra': [3., 2., 1.], 'a2': [1., 2.], 'one': [2.], 'z': [0., 2., 3.], 'nz': [-1., 2., 3.]}
    def add(cls, fam, aux=None, att=None, label='', name=None, **kw):
        aux = aux or {}; att = att or {}
        v = np.array(C[fam])
        args = dict(aux); args.update(att); args.update(kw)
        if cls in ('named', 'dummy', 'axis'):
            nm = name or 'foo'
            a = {'named': lambda: pyg.NamedAxis(v, nm, **args), 'dummy': lambda: DummyAxis(v, nm, **args), 'axis': lambda: Axis(v, name=nm, **args)}[cls]()
            spec_name = nm
        else:
            if name: args['name'] = name
            a = getattr(pyg, cls)(v, **args); spec_name = None
        if cls == 'Lat' and 'weights' not in aux: aux = dict(aux, weights=np.cos(v*np.pi/180))
        out.append(('%s %s%s' % (cls, fam, label), (cls, spec_name, v.tolist(), {k: np.asarray(x).tolist() for k, x in aux.items()}, dict(att)), a))
    for cls in ('XAxis', 'YAxis', 'ZAxis', 'TAxis', 'Lon', 'Lat', 'Pres', 'Height', 'named', 'dummy', 'axis', 'Freq', 'Index', 'SpectralM'):
        if cls == 'Index': continue
        for fam in C:
            if cls not in ('XAxis', 'Lon', 'named', 'Pres', 'dummy') and fam not in ('a', 'b', 'ra'): continue
            if cls == 'Lat' and fam == 'b': continue
            add(cls, fam)
        n = 3
        add(cls, 'a', aux=dict(extra=[1., 2., 3.]), label=' +extra')
        add(cls, 'a', aux=dict(extra=[1., 2., 5.]), label=' +extra2')
        add(cls, 'a', aux=dict(other=[1., 2., 3.]), label=' +other')
        add(cls, 'a', aux=dict(tag=np.array(['p', 'q', 'r'])), label=' +tag')
        add(cls, 'a', aux=dict(tag=np.array(['p', 'q', 's'])), label=' +tag2')
        add(cls, 'a', att=dict(scale=2), label=' +scale2')
        add(cls, 'a', att=dict(scale=3), label=' +scale3')
        if cls != 'Lat': add(cls, 'a', aux=dict(weights=[1., 2., 1.]), label=' +weights')
        add(cls, 'a', atts=dict(note='n'), label=' with attributes')
        add(cls, 'a', plotatts=dict(plottitle='n'), label=' with plot attributes')
    for nm in ('bar', 'Foo'):
        for cls in ('named', 'dummy', 'axis'): add(cls, 'a', name=nm, label=' named ' + nm)
    add('XAxis', 'a', name='easting', label=' renamed'); add('Lon', 'a', name='longitude', label=' renamed')
    for st in (['a', 'b', 'c'], ['a', 'b', 'd'], ['c', 'b', 'a'], ['a', 'b']):
        out.append(('Station %s' % st, ('Station', None, st, {}, {}), Station(station=np.array(st))))
    v = np.array([1., 2., 3.])
    for A, B in (([1., 2., 3.], [0., .5, 1.]), ([1., 2., 4.], [0., .5, 1.]), ([1., 2., 3.], [0., .4, 1.])):
        out.append(('Hybrid %s %s' % (A, B), ('Hybrid', None, v.tolist(), dict(A=A, B=B), {}), pyg.Hybrid(v, A=np.array(A), B=np.array(B))))
    return out

BASES = dict(XAxis=[], YAxis=[], ZAxis=[], TAxis=[], Lon=['XAxis'], Lat=['YAxis'], Pres=['ZAxis'], Hybrid=['ZAxis'], Height=['ZAxis'], named=[], dummy=['named'], axis=['*'], Freq=[], SpectralM=['YAxis'], Station=[])

def spec_equal(s, t):
    """True / False / None (not specified)"""
    c, d = s[0], t[0]
    if 'Station' in (c, d): return s == t
    if {'named', 'dummy'} & {c, d}:
        if c != d: return None if {c, d} in ({'named', 'dummy'},) or 'axis' in (c, d) else False
        if s[1] != t[1]: return False
    elif c == d == 'axis':
        if s[1] != t[1]: return False
    elif c != d:
        if 'axis' in (c, d): return None           # generic against specific axis: left open
        if not (d in BASES[c] or c in BASES[d]): return False
    return s[2:] == t[2:]

def seqs(n, L): return [c for r in range(1, L+1) for c in itertools.product(range(n), repeat=r)]

def cases(tier):
    out = [['eq', i] for i in range(16)]
    for fam in ('inc', 'neg', 'wide', 'tiny'): out.append(['ladder', fam])
    for kind in ('x', 'lon', 'pres', 'foo', 'axis', 'zero', 'int', 'station', 'wide'):
        for part in range(2): out.append(['map', kind, part, 3 if tier == 'quick' else 4])
    for cal in ('std', 'm365', 'yearless'):
        for part in range(8): out.append(['time', cal, part, tier])
    for part in range(4): out.append(['toolsmap', part])
    return out

def run(case, rec):
    t = case[0]
    if t == 'eq':
        cat = catalogue()
        for i, (l, s, a) in enumerate(cat):
            if i % 16 != case[1]: continue
            rec.check(a == a and not (a != a), lambda: '%s is not equal to itself' % l, 'reflexive')
            for m, u, b in cat:
                e = bool(a == b); r = bool(b == a)
                want = spec_equal(s, u)
                rec.step(); rec.state(l, m, e)
                rec.check(e == r, lambda: '%s == %s is %s but the other way round %s' % (l, m, e, r), 'symmetric')
                rec.check(bool(a != b) != e, lambda: '%s: == and != %s agree' % (l, m), 'ne')
                rec.check(want is None or e == want, lambda: '%s == %s is %s' % (l, m, e), 'eq')
                rec.check(want is None or bool(a.alleq(b, b)) == e, lambda: 'alleq(%s, %s) is not %s' % (l, m, e), 'alleq')
    elif t == 'ladder':
        import pygeode as pyg
        for n in (1, 2, 4):
            v = ref.VALS[case[1]](n)
            for mk in (pyg.XAxis, pyg.Lon, lambda v: pyg.NamedAxis(v, 'foo'), pyg.Pres):
                a = mk(v)
                for k in range(n):
                    for f in (1e-13, 1e-9, 1e-7, 1e-6, 3e-6, .9, 1.1, 2., 5., 100.):
                        for sg in (1, -1):
                            rt = a.rtol
                            d = f*rt if f >= .9 else f*rt/1e-5
                            w = v.astype('d').copy(); w[k] *= 1 + sg*d
                            b = mk(w)
                            rt = max(a.rtol, b.rtol)
                            diff = abs(w[k]-v[k]); lim = rt*max(abs(w[k]), abs(v[k]))
                            floor = min(1e-8, 1e-10*np.abs(v).max())
                            rec.step(); rec.state(n, k, f, sg)
                            if diff < .8*rt*min(abs(w[k]), abs(v[k])): rec.check(a == b and b == a, lambda: '%s and %s differ by less than the tolerance %g but are not equal' % (v, w, rt), 'ladder:below')
                            elif diff > 1.05*(lim + 100*floor): rec.check(not (a == b) and not (b == a), lambda: '%s and %s differ by more than the tolerance %g but are equal' % (v, w, rt), 'ladder:above')
                            # mapping agrees
                            if n == 1 or f in (.9, 2., 100., 1e-9):
                                r2 = min(a.rtol, b.rtol)
                                m = a.map_to(b)
                                if diff < .8*r2*abs(w[k]): rec.check(m is not None and list(m) == list(range(n)), lambda: 'map %s to %s gave %s' % (v, w, m), 'ladder:map')
                                elif diff > 1.2*r2*abs(w[k]) + 2*floor and not any(abs(w[k]-x) <= 1.2*r2*abs(w[k]) for x in v):
                                    if not a == b: rec.check(m is None or len(m) == n-1, lambda: 'map %s to %s gave %s' % (v, w, m), 'ladder:map')
    elif t in ('map', 'toolsmap'):
        if t == 'map':
            _, kind, part, n = case
            S = sorted(set(seqs(n, 3)) | set(itertools.permutations(range(4))))
        else:
            part = case[1]; kind = 'tools'; n = 4; S = seqs(4, 4)
        fam = dict(x='inc', lon='inc', pres='dec', foo='uns', axis='inc', zero='zero', int='int', wide='wide', tools='uns').get(kind)
        from pygeode.tools import map_to
        import pygeode as pyg
        def mk(sel):
            if kind == 'station': return pyg.axis.Station(station=np.array(['aa', 'b', 'ccc', 'dd'])[list(sel)])
            v = ref.VALS[fam](4)[list(sel)]
            if kind == 'tools': return v
            return {'x': pyg.XAxis, 'lon': pyg.Lon, 'pres': pyg.Pres, 'foo': lambda v: pyg.NamedAxis(v, 'foo'), 'axis': lambda v: pyg.Axis(v, name='q'), 'zero': pyg.XAxis, 'int': pyg.XAxis, 'wide': pyg.Height}[kind](v)
        axs = [mk(s) for s in S]
        step = 4 if t == 'toolsmap' else 2
        for i, a in enumerate(S):
            if i % step != part: continue
            for j, b in enumerate(S):
                if t == 'toolsmap' and len(a) == 4 and len(b) == 4 and (i//step + j) % 3: continue
                m = map_to(axs[i], axs[j], 1e-5) if kind == 'tools' else axs[i].map_to(axs[j])
                rec.step()
                want = [c for c in b if c in a]
                if m is None:
                    rec.check(False, lambda: '%s: mapping %s to %s is None' % (kind, a, b), 'map'); continue
                m = [int(x) for x in m]
                ok = all(0 <= x < len(a) for x in m) and [a[x] for x in m] == want
                if len(set(a)) == len(a): ok = ok and m == [a.index(c) for c in want]
                rec.state(kind, tuple(m))
                rec.check(ok, lambda: '%s: mapping %s to %s gave positions %s' % (kind, a, b, m), 'map')
    elif t == 'time':
        _, cal, part, tier = case
        import pygeode as pyg
        cls = dict(std=pyg.StandardTime, m365=pyg.ModelTime365, yearless=pyg.Yearless)[cal]
        days = np.array([0., 45.25, 366., 400.]) if cal != 'yearless' else np.array([0., 1.25, 31., 400.])
        start = dict(year=2000, month=1, day=1) if cal != 'yearless' else dict(hour=0)
        def mk(sel): return cls(days[list(sel)], units='days', startdate=start)
        S = seqs(3, 4 if tier == 'quick' else 4) + list(itertools.permutations(range(4)))
        axs = [mk(s) for s in S]
        for i, a in enumerate(S):
            if i % 8 != part: continue
            for j, b in enumerate(S):
                e = axs[i] == axs[j]; rec.step()
                rec.check(e == (a == b) and (axs[i] != axs[j]) != e, lambda: '%s: %s == %s is %s' % (cal, a, b, e), 'time:eq')
                m = [int(x) for x in axs[i].map_to(axs[j])]
                want = [c for c in b if c in a]
                rec.step(); rec.state(cal, tuple(m))
                ok = all(0 <= x < len(a) for x in m) and [a[x] for x in m] == want
                rec.check(ok, lambda: '%s: mapping %s to %s gave positions %s' % (cal, a, b, m), 'time:map')
                p, q = axs[i].common_map(axs[j])
                p = [int(x) for x in p]; q = [int(x) for x in q]
                rec.step(); rec.state(cal, tuple(p), tuple(q))
                ok = len(p) == len(q) and all(0 <= x < len(a) for x in p) and all(0 <= x < len(b) for x in q)
                ok = ok and all(a[x] == b[y] for x, y in zip(p, q)) and len(set(zip(p, q))) == len(p)
                # every element with a partner on the other side is paired
                ok = ok and set(p) == {x for x in range(len(a)) if a[x] in b} and set(q) == {y for y in range(len(b)) if b[y] in a}
                rec.check(ok, lambda: '%s: common map of %s and %s gave %s and %s' % (cal, a, b, p, q), 'time:common')
