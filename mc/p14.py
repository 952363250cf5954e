"""P14: concatenation joins segments without losing, repeating or moving data."""
import itertools
import numpy as np
from . import ref, cal as C

BOUND = {
 'quick': 'every way to cut an axis of length <= 4 into segments x every order of the segments x 16 axis kinds x position of the axis in 1-D to 3-D x 4 mixtures of storage, each read in full and by every selector of a '
          'pool (slices, reversed, all pairs of positions, repeated, out of order, last/first) on every axis; segments with equal coordinates; 8 dtype pairs; nested concatenation in every bracketing; time segments '
          'of other units and reference dates, 4 calendars; every pair of attribute dictionaries over 2 keys x 3 values; disagreeing segments; datasets; memory limits 1..6',
 'thorough': 'as quick with axes of length <= 5, every selector of length <= 3'}

KINDS = ['x', 'lat', 'lon', 'pres', 'hyb', 'foo', 'axis', 'station', 'idx', 'std', 'm365', 'm360', 'yearless', 'dummy', 'z']
OTHER = {'x': 'pres', 'lat': 'lon', 'lon': 'lat'}

def compositions(n):
    for bits in itertools.product((0, 1), repeat=n-1):
        out = [1]
        for b in bits:
            if b: out.append(1)
            else: out[-1] += 1
        yield out

def cases(tier):
    out = []
    for k in KINDS:
        for n in ((2, 3, 4) if tier == 'quick' else (2, 3, 4, 5)):
            for nd, pos in ((1, 0), (2, 0), (2, 1), (3, 0), (3, 1), (3, 2)):
                if nd == 3 and n > 3 and tier == 'quick' or nd > 1 and k == 'axis': continue       # (a plain Axis stands for any axis)
                out.append(['cut', k, n, nd, pos, tier])
    for k in ('lat', 'std', 'foo', 'station', 'idx'): out.append(['same', k])
    for k in ('lat', 'std', 'foo'): out.append(['nest', k])
    out += [['dtype'], ['atts'], ['refuse'], ['identical'], ['dataset'], ['axisatts']]
    for c in ('std', 'm365', 'm360', 'yearless'): out.append(['time', c])
    return out

def sels(n, tier):
    if tier == 'few': return [slice(None, None, -1), slice(1, None, 2), [n-1, 0], [0, 0]]
    s = [slice(None, None, -1), slice(None, None, 2), slice(1, None), slice(-1, None), slice(None, 0, -2)]
    s += [list(c) for c in itertools.product(range(n), repeat=2)] + [[0], [n-1]]
    if n <= 3 or tier == 'thorough': s += [list(c) for c in itertools.permutations(range(n), min(n, 3))]
    s += [[n-1, 0, 0, n//2]]
    return s

def seg(full, a, b): return full.slice[list(range(a, b))] if hasattr(full, 'slice') else full

def axis_of(kind, n):
    """full axis and a function giving an independent segment at positions"""
    a = ref.axis(kind, n)
    return a

def sub_axis(a, pos):
    return a.slice[list(pos)]

def compare(rec, label, c, d, iax, aux, key, tier, store_ok=True, axes=None):
    """c: concatenated variable; d: expected array; aux: expected aux arrays (and values) of the joined axis"""
    if not rec.check(tuple(c.shape) == d.shape, lambda: '%s: shape %s, expected %s' % (label, c.shape, d.shape), key): return
    a = c.axes[iax]
    for f, w in aux.items():
        g = a.values if f == '' else a.auxarrays.get(f)
        rec.check(g is not None and ref.same(np.asarray(g), w, 1e-12, 1e-9), lambda: '%s: %s of the joined axis %s, expected %s' % (label, f or 'coordinates', g, w), key + ':axis')
    got, err = ref.attempt(lambda: np.asarray(c.get())); rec.step()
    if not rec.check(err is None, lambda: '%s: reading raises %r' % (label, err), key): return
    rec.check(ref.same(got, d, 0, 0), lambda: ref.diffmsg(label, got, d), key)
    rec.state(label, got)
    for dim in range(d.ndim):
        for s in (sels(d.shape[dim], tier) if dim == iax else (slice(None, None, -1), [d.shape[dim]-1])):
            q = tuple(s if i == dim else slice(None) for i in range(d.ndim))
            w = np.take(d, np.arange(d.shape[dim])[s], axis=dim)
            for form in ('get', 'asvar'):
                if form == 'get': g, err = ref.attempt(lambda: np.asarray(c[q]))
                else:
                    if isinstance(s, list) and len(set(s)) == 1 and len(s) > 1: continue
                    g, err = ref.attempt(lambda: np.asarray((c.slice[q]*1).get()))
                    if err is not None and len(set(np.arange(d.shape[dim])[s].tolist())) < len(w): continue
                rec.step()
                if not rec.check(err is None, lambda: '%s [%s] raises %r' % (label, q, err), key): continue
                rec.check(ref.same(g, w, 0, 0), lambda: ref.diffmsg('%s [%s] (%s)' % (label, q, form), g, w), key)

def expected_axis(a, parts):
    """coordinates and auxiliary arrays of the joined axis"""
    p = [i for q in parts for i in q]
    e = {f: np.asarray(v)[p] for f, v in a.auxarrays.items()}
    if type(a).__name__ not in ('Station',): e[''] = np.asarray(a.values)[p]
    return e

def run(case, rec):
    import pygeode as pyg
    from pygeode.concat import concat
    t = case[0]
    if t == 'cut':
        _, kind, n, nd, pos, tier = case
        a = ref.axis(kind, n)
        names = [k for k in ('bar', 'pres', 'lon') if type(ref.axis(k, 2)) is not type(a) and not (kind in ('hyb', 'z') and k == 'pres') and not (kind == 'x' and k == 'lon')][:nd-1]
        rest = [ref.axis(k, 2) for k in names]
        while len(rest) < nd-1: rest.append(ref.axis('y', 2))
        axs = rest[:]; axs.insert(pos, a)
        d = ref.data([len(q) for q in axs])*1.
        for comp in compositions(n):
            if len(comp) == 1: continue
            cuts = np.cumsum([0] + comp)
            parts = [list(range(cuts[i], cuts[i+1])) for i in range(len(comp))]
            perms = list(itertools.permutations(range(len(parts))))
            if tier == 'quick' and nd == 3: perms = [perms[0], perms[-1]]
            for perm in perms:
                for mix in (range(4) if nd < 3 else (perms.index(perm) % 4,)):
                    vs = []
                    for j, k in enumerate(perm):
                        st = ref.STORES[mix] if mix < 3 else ref.STORES[j % 3]
                        sx = rest[:]; sx.insert(pos, sub_axis(a, parts[k]))
                        vs.append(ref.var(tuple(sx), np.take(d, parts[k], axis=pos), st))
                    pp = [parts[k] for k in perm]
                    p = [i for q in pp for i in q]
                    label = '%s %s axis %d of %d, storage %d' % (kind, pp, pos, nd, mix)
                    e = expected_axis(a, pp)
                    for form in (({}, dict(iaxis=pos)) if mix == 0 else ({},)):
                        c, err = ref.attempt(lambda: concat(*vs, **form)); rec.step()
                        if not rec.check(err is None, lambda: '%s: concat raises %r' % (label, err), 'cut:' + kind): continue
                        rec.check(c.axes[pos].name == a.name and type(c.axes[pos]) is type(a), lambda: '%s: joined axis %r' % (label, c.axes[pos]), 'cut:' + kind)
                        rec.check([q == r for i, (q, r) in enumerate(zip(c.axes, axs)) if i != pos] == [True]*(nd-1), lambda: '%s: axes %s' % (label, c.axes), 'cut:' + kind)
                        compare(rec, label, c, np.take(d, p, axis=pos), pos, e, 'cut:' + kind, tier if (mix == 3 or nd == 3) and (tier != 'quick' or n < 4 or nd == 1 or perm in (perms[0], perms[-1])) else 'few')
                    if mix == 0 and nd == 2:
                        for lim in range(1, 7):
                            with ref.chunks(lim):
                                g, err = ref.attempt(lambda: np.asarray((concat(*vs)+0).mean(rest[0].name, weights=False)[:])); rec.step()
                                w = np.take(d, p, axis=pos).mean(axis=1-pos)
                                rec.check(err is None and ref.same(g, w), lambda: '%s limit %d: mean %s %r, expected %s' % (label, lim, g, err, w), 'mem')
    elif t == 'same':
        # segments that hold some of the same coordinates keep their own values
        kind = case[1]; a = ref.axis(kind, 4)
        for pp in ([[0, 1], [1, 2]], [[0, 1, 2], [2, 3], [0]], [[0], [0, 1]], [[1, 0], [3, 1, 2]], [[0, 1, 2, 3], [1]], [[0, 1], [2, 3], [2, 3]]):
            for nd, pos in ((1, 0), (2, 0), (2, 1)):
                rest = [ref.axis('bar', 2)][:nd-1]; vs = []; ds = []
                for j, q in enumerate(pp):
                    sx = rest[:]; sx.insert(pos, sub_axis(a, q)); x = ref.data([len(z) for z in sx], salt=j)*1.
                    vs.append(ref.var(tuple(sx), x, ref.STORES[j % 3])); ds.append(x)
                label = '%s with equal coordinates %s, axis %d' % (kind, pp, pos)
                c, err = ref.attempt(lambda: concat(vs, iaxis=pos)); rec.step()
                if not rec.check(err is None, lambda: '%s: concat raises %r' % (label, err), 'same'): continue
                d = np.concatenate(ds, axis=pos)
                got, err = ref.attempt(lambda: np.asarray(c.get()))
                rec.check(err is None and ref.same(got, d, 0, 0), lambda: '%s: %r %s' % (label, err, ref.diffmsg('', got if err is None else [], d)), 'same')
                e = expected_axis(a, pp)
                for f, w in e.items():
                    g = c.axes[pos].values if f == '' else c.axes[pos].auxarrays.get(f)
                    rec.check(g is not None and ref.same(np.asarray(g), w, 1e-12, 1e-9), lambda: '%s: %s %s, expected %s' % (label, f, g, w), 'same:axis')
    elif t == 'nest':
        kind = case[1]; a = ref.axis(kind, 4); parts = [[0], [1], [2], [3]]
        d = ref.data((4, 2))*1.; y = ref.axis('bar', 2)
        vs = [ref.var((sub_axis(a, q), y), d[q], ref.STORES[i % 3]) for i, q in enumerate(parts)]
        for perm in itertools.permutations(range(4)):
            w = [vs[i] for i in perm]; pp = [parts[i] for i in perm]; p = list(perm)
            for name, f in (('((ab)c)d', lambda: concat(concat(concat(w[0], w[1]), w[2]), w[3])), ('a(b(cd))', lambda: concat(w[0], concat(w[1], concat(w[2], w[3])))),
                            ('(ab)(cd)', lambda: concat(concat(w[0], w[1]), concat(w[2], w[3]))), ('a(bc)d', lambda: concat(w[0], concat(w[1], w[2]), w[3])), ('list', lambda: concat(list(w))),
                            ('derived', lambda: concat(w[0]*1, w[1] + 0, concat(w[2]*2, w[3]*2)/2)), ('sliced', lambda: concat(concat(*w).slice[:2], concat(*w).slice[2:])),
                            ('reversed halves', lambda: concat(concat(*w).slice[1::-1], concat(*w).slice[:1:-1])), ('transposed', lambda: concat(*[q.transpose('bar') for q in w]).transpose(a.name))):
                label = '%s %s %s' % (kind, name, perm)
                c, err = ref.attempt(f); rec.step()
                if not rec.check(err is None, lambda: '%s raises %r' % (label, err), 'nest'): continue
                q = p if name != 'reversed halves' else [p[1], p[0], p[3], p[2]]
                compare(rec, label, c, d[q], 0, expected_axis(a, [q]), 'nest', 'quick')
    elif t == 'dtype':
        DT = ['float64', 'float32', 'int64', 'int32', 'int16', 'bool', 'complex128']
        a = ref.axis('lat', 4)
        for d1, d2 in itertools.product(DT, repeat=2):
            x, y = np.array([0, 3]).astype(d1), np.array([1, 5]).astype(d2)
            c = concat(ref.var((sub_axis(a, [0, 1]),), x), ref.var((sub_axis(a, [2, 3]),), y, 'getview')); rec.step()
            w = np.concatenate([x, y]); got, err = ref.attempt(lambda: np.asarray(c.get()))
            rec.check(err is None and c.dtype == w.dtype and got.dtype == w.dtype and ref.same(got, w, 0, 0), lambda: '%s and %s: declared %s, %s; %s' % (d1, d2, c.dtype, err, ref.diffmsg('', got, w)), 'dtype')
            for sl in ([0], [1, 0], [3], [2, 3], [3, 0]):
                g = np.asarray(c[(sl,)]); rec.step()
                rec.check(g.dtype == w.dtype and ref.same(g, w[sl], 0, 0), lambda: '%s and %s: reading %s gives %s' % (d1, d2, sl, ref.diffmsg('', g, w[sl])), 'dtype')
    elif t == 'atts':
        a = ref.axis('lat', 4)
        dicts = [dict((k, v) for k, v in zip('pq', c) if v is not None) for c in itertools.product((None, 1, 'one', [1, 2]), repeat=2)]
        for A, B in itertools.product(dicts, repeat=2):
            for n1, n2, u1, u2 in (('v', 'v', 'K', 'K'), ('v', 'w', 'K', 'm'), ('', 'w', '', 'm')):
                v1 = pyg.Var((sub_axis(a, [0, 1]),), values=np.zeros(2), name=n1, atts=dict(A), plotatts=dict(A)); v2 = pyg.Var((sub_axis(a, [2, 3]),), values=np.zeros(2), name=n2, atts=dict(B), plotatts=dict(B))
                v1.units = u1; v2.units = u2
                c = concat(v1, v2); rec.step()
                w = {k: A[k] for k in A if k in B and A[k] == B[k] and type(A[k]) is type(B[k])}
                rec.check({k: c.atts[k] for k in c.atts} == w, lambda: 'attributes %s and %s: got %s' % (A, B, c.atts), 'atts')
                rec.check(all(c.plotatts.get(k) == w.get(k) for k in 'pq'), lambda: 'plot attributes %s and %s: got %s' % (A, B, c.plotatts), 'atts')
                rec.check(c.name == (n1 if n1 == n2 else ''), lambda: 'names %r and %r: got %r' % (n1, n2, c.name), 'atts')
                rec.check(c.units == (u1 if u1 == u2 else '') , lambda: 'units %r and %r: got %r' % (u1, u2, c.units), 'atts')
                rec.check(v1.atts == A and v2.atts == B, lambda: 'attributes of the segments changed: %s, %s' % (v1.atts, v2.atts), 'atts')
    elif t == 'axisatts':
        for A, B in itertools.product([{}, {'p': 1}, {'p': 2}, {'p': 1, 'q': 2}], repeat=2):
            a = pyg.Lat([1., 2.]); b = pyg.Lat([3., 4.]); a.atts.update(A); b.atts.update(B)
            c = concat(pyg.Var((a,), values=np.zeros(2)), pyg.Var((b,), values=np.zeros(2))); rec.step()
            w = {k: A[k] for k in A if B.get(k) == A[k]}
            rec.check({k: v for k, v in c.axes[0].atts.items() if k in 'pq'} == w, lambda: 'axis attributes %s and %s: got %s' % (A, B, c.axes[0].atts), 'axisatts')
    elif t == 'refuse':
        L = lambda *v: pyg.Lat(list(v)); N = lambda *v: pyg.Lon(list(v)); F = lambda n, *v: pyg.NamedAxis(list(v), n)
        T = lambda cls, *v: cls(list(v), units='days', startdate=dict(year=2001))
        V = lambda *ax: pyg.Var(ax, values=ref.data([len(a) for a in ax])*1., name='v')
        for name, vs in (('two axes differ', (V(L(1, 2), N(1, 2)), V(L(3, 4), N(3, 4)))), ('number of axes', (V(L(1, 2)), V(L(3, 4), N(1, 2)))), ('order of axes', (V(L(1, 2), N(5, 6)), V(N(7, 8), L(3, 4)))),
                         ('classes', (V(L(1, 2)), V(N(3, 4)))), ('calendars', (V(T(pyg.StandardTime, 1, 2)), V(T(pyg.ModelTime365, 3, 4)))), ('names', (V(F('foo', 1, 2)), V(F('bar', 3, 4)))),
                         ('names of another axis', (V(L(1, 2), F('foo', 1, 2)), V(L(3, 4), F('bar', 1, 2)))),
                         ('some segments differ', (V(L(1, 2), N(1, 2)), V(L(3, 4), N(1, 2)), V(L(5, 6), N(1, 3)))), ('length of another axis', (V(L(1, 2), N(1, 2)), V(L(3, 4), N(1, 2, 3)), V(L(5, 6), N(1, 2))))):
            for kw in ({}, dict(iaxis=0), dict(iaxis=vs[0].axes[0].name)):
                r, err = ref.attempt(lambda: (lambda c: (c, np.asarray(c.get())))(concat(*vs, **kw))); rec.step()
                if err is not None: continue
                # accepted: then only if nothing was combined with anything at another coordinate
                c, g = r
                ok = 'iaxis' in kw and c.shape == g.shape
                if ok:
                    p0 = 0
                    for v in vs:
                        n = len(v.axes[0])
                        for ix in np.ndindex(*[n] + [len(x) for x in c.axes[1:]]):
                            cc = [x.values[i] for x, i in zip(c.axes[1:], ix[1:])]
                            try: j = [list(x.values).index(q) for x, q in zip(v.axes[1:], cc)]
                            except ValueError: ok = False; continue
                            ok = ok and g[(p0 + ix[0],) + ix[1:]] == np.asarray(v.values)[(ix[0],) + tuple(j)]
                        p0 += n
                    ok = ok and type(vs[0].axes[0]) is type(vs[1].axes[0]) and all(type(x) is type(y) and x.name == y.name for v in vs for x, y in zip(v.axes, c.axes))
                rec.check(ok, lambda: 'segments with %s were accepted (%s): %s' % (name, kw, c.axes), 'refuse:' + name)
    elif t == 'identical':
        for nd in (1, 2):
            axs = (pyg.Lat(2), pyg.Lon(3))[:nd]
            for k in (2, 3):
                ds = [ref.data([len(a) for a in axs], salt=j)*1. for j in range(k)]
                c = concat(*[ref.var(axs, d, ref.STORES[j % 3]) for j, d in enumerate(ds)]); rec.step()
                compare(rec, '%d identical %d-D' % (k, nd), c, np.stack(ds, axis=-1), nd, {}, 'identical', 'quick')
    elif t == 'time':
        cal = case[1]; F = C.fields(cal); cls = C.cls(cal)
        refs = [(2000, 1, 1, 0, 0, 0), (2001, 2, 28, 12, 0, 0), (1999, 12, 31, 0, 0, 30)] if cal != 'yearless' else [(0, 0, 0, 0), (40, 12, 0, 0), (3, 0, 0, 30)]
        if cal == 'm360': refs[2] = (1999, 12, 30, 0, 0, 30)
        for (u1, r1), (u2, r2) in itertools.product(itertools.product(('days', 'hours', 'seconds'), refs), repeat=2):
            T1 = [C.seconds(cal, r1) + 86400*k for k in range(3)]; T2 = [T1[-1] + 3600*(k+1)*31 for k in range(2)]
            ax = [cls(np.array([(s - C.seconds(cal, r))/C.UNIT[u] for s in T]), units=u, startdate=dict(zip(F, r))) for T, u, r in ((T1, u1, r1), (T2, u2, r2))]
            for o in ((0, 1), (1, 0)):
                T = [s for i in o for s in (T1, T2)[i]]
                c = concat(*[pyg.Var((ax[i],), values=np.arange(len(ax[i])) + 10.*i) for i in o]); rec.step()
                w = [C.date(cal, s) for s in T]; a = c.axes[0]
                label = '%s %s since %s, %s since %s, order %s' % (cal, u1, r1, u2, r2, o)
                g = list(zip(*[[int(q) for q in a.auxarrays[f]] for f in F]))
                rec.check(g == w, lambda: '%s: dates %s, expected %s' % (label, g, w), 'time')
                # the coordinates mean the same dates
                sd = tuple(int(a.startdate.get(f, dict(year=1, month=1, day=1).get(f, 0))) for f in F)
                g2 = [round(C.seconds(cal, sd) + q*C.UNIT[a.units]) for q in a.values]
                rec.check(g2 == T, lambda: '%s: coordinates %s in %s since %s mean %s, expected %s' % (label, a.values, a.units, a.startdate, [C.date(cal, s) for s in g2], w), 'time:values')
                want = np.concatenate([np.arange(len(ax[i])) + 10.*i for i in o])
                rec.check(ref.same(c.get(), want, 0, 0), lambda: ref.diffmsg(label, c.get(), want), 'time')
                if u1 == u2 and r1 == r2: rec.check(a.units == u1 and sd == r1, lambda: '%s: %s since %s' % (label, a.units, a.startdate), 'time:units')
    elif t == 'dataset':
        from pygeode.dataset import concat as dconcat
        a = ref.axis('std', 5); y = ref.axis('lat', 2)
        for comp in compositions(5):
            if len(comp) == 1: continue
            cuts = np.cumsum([0] + comp); parts = [list(range(cuts[i], cuts[i+1])) for i in range(len(comp))]
            full = {n: ref.data((5, 2), salt=i)*1. for i, n in enumerate('uvw')}
            for perm in itertools.permutations(range(len(parts))) if len(parts) < 5 else [(0, 1, 2, 3, 4), (4, 3, 2, 1, 0)]:
                dss = [pyg.Dataset([ref.var((sub_axis(a, parts[k]), y), x[parts[k]], ref.STORES[k % 3], name=n) for n, x in (full.items() if k % 2 == 0 else reversed(list(full.items())))], atts=dict(same=1, mine=k)) for k in perm]
                pp = [i for k in perm for i in parts[k]]
                for form in (lambda: dconcat(*dss), lambda: dconcat(dss)):
                    ds, err = ref.attempt(form); rec.step()
                    if not rec.check(err is None, lambda: 'datasets %s: %r' % (parts, err), 'dataset'): continue
                    rec.check(sorted(v.name for v in ds.vars) == ['u', 'v', 'w'], lambda: 'datasets %s: variables %s' % (parts, ds.vars), 'dataset')
                    for n, x in full.items():
                        g, err = ref.attempt(lambda: np.asarray(ds[n].get()))
                        rec.check(err is None and ref.same(g, x[pp], 0, 0), lambda: 'datasets %s order %s: %s: %r %s' % (parts, perm, n, err, ref.diffmsg('', g, x[pp])), 'dataset')
                    rec.check(ds.atts == dict(same=1), lambda: 'datasets: attributes %s' % ds.atts, 'dataset')
        # a variable found in one of them only is kept as it is
        d1 = pyg.Dataset([pyg.Var((sub_axis(a, [0, 1]),), values=[1., 2.], name='u'), pyg.Var((y,), values=[5., 6.], name='fix')]); d2 = pyg.Dataset([pyg.Var((sub_axis(a, [2, 3]),), values=[3., 4.], name='u')])
        ds = dconcat(d1, d2); rec.step()
        rec.check(ref.same(ds.u.get(), [1., 2., 3., 4.]) and ref.same(ds.fix.get(), [5., 6.]), lambda: 'dataset with a fixed variable: %s %s' % (ds.u.get(), ds.fix.get()), 'dataset')
