"""P04: keyword selection keeps exactly the coordinates described, in axis order."""
import itertools
import numpy as np
from . import ref

BOUND = {
 'quick': '12 axis kinds/coordinate families x n<=4 (with and without auxiliary arrays): every keyword prefix combination of i,l,n,m,s x every value '
          '(each coordinate, midpoints, outside; all ordered pairs of those; all lists up to length 3; all indices, slices with strides 1,2,-1, index lists) x accepted axis names; '
          'all pairs of keywords of a 30-element alphabet on one axis; 2-D: all pairs of a 14-element alphabet per axis; chains of two; unknown keywords',
 'thorough': 'as quick with n<=5, pairs from a 60-element alphabet, lists up to length 4'}

AX = [('x', 'inc'), ('x', 'uns'), ('z', 'dec'), ('lat', 'neg'), ('lon', 'zero'), ('pres', 'dec'), ('hyb', 'dec'), ('foo', 'f32'), ('x', 'int'),
      ('x', 'wide'), ('station', None), ('aux', None)]

def mk(kind, vals, n):
    """axis, coordinates, {aux name: array}, weights, accepted names"""
    import pygeode as pyg
    if kind == 'aux':
        aux = dict(height=np.array([3., 1., 2., 1., 5.])[:n], code=np.array([4, 4, 2, 7, 2])[:n], site_id=np.array([9, 8, 9, 7, 8])[:n])
        a = pyg.NamedAxis(ref.VALS['inc'](n), 'foo', **aux)
        return a, a.values.copy(), aux, None, ['foo', 'FOO']
    a = ref.axis(kind, n, vals)
    aux = {}
    if kind == 'hyb': aux = dict(A=np.arange(n)*3.+1, B=1./(1+np.arange(n)))
    if kind == 'station': aux = dict(station=np.array(['aa', 'b', 'ccc', 'dd', 'e', 'ff'])[:n])
    w = np.cos(ref.VALS['neg'](n)*np.pi/180) if kind == 'lat' else None
    names = {'x': ['xaxis', 'x', 'X', 'XAxis'], 'z': ['zaxis', 'z'], 'lat': ['lat', 'latitude', 'LAT', 'Lat'], 'lon': ['lon', 'Longitude'], 'pres': ['pres', 'plev', 'Pres', 'zaxis'],
             'hyb': ['eta', 'hybrid'], 'foo': ['foo'], 'station': ['station']}[kind]
    v = {'station': None}.get(kind, None) if kind == 'station' else np.array(ref.VALS[vals](n))
    if v is None: v = np.arange(n)
    return a, v, aux, w, [s for s in names if a.has_alias(s)] if kind != 'x' else ['xaxis', 'XAXIS']

def one(vals, v, lst):
    """mask of a value selection"""
    k = np.zeros(len(vals), bool)
    def single(x):
        if vals.dtype.kind == 'f':
            d = np.abs(vals - x)
            k[np.flatnonzero(d == d.min())[0]] = True
        else: k[:] |= np.array([y == x for y in vals.tolist()])
    if lst:
        for x in v: single(x)
    elif isinstance(v, (tuple, list)):
        lo, hi = min(v), max(v)
        for i, y in enumerate(vals.tolist()): k[i] = lo <= y <= hi
    else: single(v)
    return k

def mask(vals, prefix, v):
    n = len(vals)
    if 'i' in prefix:
        k = np.zeros(n, bool)
        if not isinstance(v, (tuple, list)): k[v] = True
        elif 'l' in prefix or len(v) not in (2, 3):
            for i in v: k[i] = True
        else: k[slice(*v)] = True
    else: k = one(vals, v, 'l' in prefix)
    return ~k if 'n' in prefix else k

def values(vals, tier):
    """candidate values of one coordinate array: (singles, pairs, lists)"""
    u = sorted(set(vals.tolist()))
    if vals.dtype.kind in 'fi':
        # thirds, not halves, so that no two coordinates tie for nearest
        mids = [a + (b-a)*.3 for a, b in zip(u, u[1:])] if vals.dtype.kind == 'f' else [a+1 for a in u if a+1 not in u]
        s = u + mids + [u[0]-100, u[-1]+100]
    else: s = u + ['zz']
    pairs = list(itertools.product(s, repeat=2))
    lists = [list(c) for r in (1, 2, 3) for c in itertools.product(s[:4], repeat=r)]
    return s, pairs, lists

def indices(n):
    s = list(range(-n, n))
    b = [None, 0, 1, n-1, n, -1, n+2]
    pairs = [(x, y) for x in b for y in b]
    trip = [(x, y, z) for x in b for y in b for z in (2, -1, -2, 1)]
    lists = [list(c) for r in (1, 4) for c in itertools.product(range(n), repeat=r)][:120]
    ll = [list(c) for r in (2, 3) for c in itertools.product(range(-n, n), repeat=r)][:120]
    return s, pairs, trip, lists, ll

def cases(tier):
    out = []
    N = 4 if tier == 'quick' else 5
    for kind, vals in AX:
        for n in range(1, N+1):
            for ms in ('', 'm', 's'):
                for part in range(2): out.append(['one', kind, vals, n, ms, part])
        for n in (2, N):
            for part in range(4): out.append(['two', kind, vals, n, part, 30 if tier == 'quick' else 60])
    for i, (k1, v1) in enumerate(AX):
        for k2, v2 in (AX[(i+1) % len(AX)], AX[(i+5) % len(AX)]):
            if {k1, k2} in ({'foo', 'aux'}, {'foo'}, {'x', 'lon'}, {'z', 'pres'}, {'x'}, {'z', 'hyb'}, {'pres', 'hyb'}): continue
            out.append(['2d', k1, v1, k2, v2])
    for kind, vals in AX: out.append(['unknown', kind, vals])
    for kind, vals in AX: out.append(['chain', kind, vals])
    return out

def alphabet(kind, vals, n, tier=None):
    """[(keyword suffix, prefix, value, mask)]"""
    a, v, aux, w, names = mk(kind, vals, n)
    out = []
    def add(nm, prefix, val, coords):
        try: k = mask(coords, prefix, val)
        except IndexError: return
        out.append((nm, prefix, val, k))
    tabs = [(names[0], v)]
    for nm in sorted(aux):
        if nm != names[0]: tabs.append((nm, aux[nm]))
    for nm, coords in tabs:
        if kind == 'station': coords = aux['station']
        s, p, l = values(coords, tier)
        for val in s:
            for neg in ('', 'n'): add(nm, neg, val, coords)
        if not (kind == 'station'):
            for val in p:
                for neg in ('', 'n'): add(nm, neg, val, coords)
        for val in l:
            for pre in ('l', 'nl', 'ln'): add(nm, pre, val, coords)
    s, p, t, l, ll = indices(n)
    nm = names[0]
    for val in s:
        for pre in ('i', 'ni', 'in'): add(nm, pre, val, v)
    for val in p + t:
        for pre in ('i', 'ni'): add(nm, pre, val, v)
    for val in l: add(nm, 'i', val, v); add(nm, 'in', val, v)
    for val in ll: add(nm, 'il', val, v); add(nm, 'nli', val, v)
    for alias in names[1:]:
        for pre, val in (('', v[0].item()), ('i', -1), ('n', (v.min().item(), v.max().item())), ('i', (0, 1))):
            if kind == 'station' and pre in ('', 'n'): continue
            add(alias, pre, val, v)
    return a, v, aux, w, names, out

def key(prefix, nm): return prefix + '_' + nm if prefix else nm

def verify(rec, what, u, axes, d, masks, auxs, fkey, dropped=()):
    """u must be the elements of d kept by masks"""
    e = d
    for i, k in enumerate(masks): e = np.compress(k, e, axis=i)
    want = [a.name for i, a in enumerate(axes) if i not in dropped]
    e = e.reshape([s for i, s in enumerate(e.shape) if i not in dropped])
    rec.step(); rec.state(e)
    if not rec.check([a.name for a in u.axes] == want, lambda: '%s: axes %s, expected %s' % (what, [a.name for a in u.axes], want), fkey): return
    rec.check(ref.same(u.get(), e, 0, 0), lambda: ref.diffmsg(what, u.get(), e), fkey)
    rest = [i for i in range(len(axes)) if i not in dropped]
    for a, i in zip(u.axes, rest):
        # (positions along an axis without coordinates are numbered afresh; its auxiliary arrays identify them)
        vals = axes[i].values[masks[i]] if a.name != 'station' else np.arange(masks[i].sum())
        rec.check(type(a) is type(axes[i]) and ref.same(a.values, vals, 0, 0), lambda: ref.diffmsg(what + ': axis %s' % a.name, a.values, axes[i].values[masks[i]]), fkey)
        for nm, arr in auxs[i].items():
            rec.check(ref.same(a.auxarrays.get(nm, []), arr[masks[i]], 0, 0), lambda: ref.diffmsg(what + ': auxiliary %s' % nm, a.auxarrays.get(nm, []), arr[masks[i]]), fkey)

def run(case, rec):
    t = case[0]
    if t == 'one':
        _, kind, vals, n, ms, part = case
        a, cv, aux, w, names, alpha = alphabet(kind, vals, n)
        d = ref.data((n,)).astype('d')
        v = ref.var([a], d, ref.STORES[n % 3])
        b = ref.axis('bar', 2)
        d2 = ref.data((2, n)).astype('d')
        v2 = ref.var([b, a], d2, ref.STORES[(n+1) % 3])
        for j, (nm, prefix, val, k) in enumerate(alpha):
            if j % 2 != part: continue
            isaux = nm in aux and kind != 'station'
            if ms == '':
                what = '%s=%r on %s %s' % (key(prefix, nm), val, kind, a.values)
                verify(rec, what, v(**{key(prefix, nm): val}), [a], d, [k], [aux], 'value')
                verify(rec, what + ' (2-D)', v2(**{key(prefix, nm): val}), [b, a], d2, [np.ones(2, bool), k], [{}, aux], 'value')
                if kind != 'station': verify(rec, what + ' (axis)', a(**{key(prefix, nm): val}), [a], a.values, [k], [aux], 'axis')
            elif not isaux:
                if ms == 'm' and not k.any(): continue
                for pre in (ms + prefix, prefix + ms):
                    what = '%s=%r on %s %s' % (key(pre, nm), val, kind, a.values)
                    u = v2(**{key(pre, nm): val})
                    if ms == 's':
                        verify(rec, what, u, [b, a], d2, [np.ones(2, bool), k], [{}, aux], 'squeeze', dropped=(1,) if k.sum() == 1 else ())
                    else:
                        ww = (w if w is not None else np.ones(n))[k]
                        e = (d2[:, k]*ww).sum(1)/ww.sum()
                        rec.step()
                        rec.check([x.name for x in u.axes] == ['bar'] and ref.same(u.get(), e), lambda: ref.diffmsg(what, u.get(), e), 'mean')
    elif t == 'two':
        _, kind, vals, n, part, size = case
        a, cv, aux, w, names, alpha = alphabet(kind, vals, n)
        step = max(1, len(alpha)//size)
        al = alpha[::step]
        d = ref.data((n,)).astype('d')
        v = ref.var([a], d, ref.STORES[part % 3])
        for i, (n1, p1, v1, k1) in enumerate(al):
            if i % 4 != part: continue
            for n2, p2, v2, k2 in al:
                for m1 in ('', 'm', 's'):
                    if m1 and n1 in aux and kind != 'station': continue
                    kk = k1 & k2
                    if m1 and kk.sum() == 0: continue
                    q1, q2 = key(m1+p1, n1), key(p2, n2)
                    if q1 == q2: continue
                    what = '%s=%r, %s=%r on %s %s' % (q1, v1, q2, v2, kind, a.values)
                    u = v(**{q1: v1, q2: v2})
                    if m1 == 'm':
                        ww = (w if w is not None else np.ones(n))[kk]
                        e = (d[kk]*ww).sum()/ww.sum()
                        rec.step()
                        rec.check(u.naxes == 0 and ref.same(u.get(), e), lambda: ref.diffmsg(what, u.get(), e), 'both:mean')
                    else:
                        verify(rec, what, u, [a], d, [kk], [aux], 'both' + m1, dropped=(0,) if m1 == 's' and kk.sum() == 1 else ())
    elif t == '2d':
        _, k1, v1, k2, v2 = case
        A = alphabet(k1, v1, 3); B = alphabet(k2, v2, 3)
        d = ref.data((3, 3)).astype('d')
        for flip in (0, 1):
            axes = [A[0], B[0]] if not flip else [B[0], A[0]]
            auxs = [A[2], B[2]] if not flip else [B[2], A[2]]
            v = ref.var(axes, d, ref.STORES[flip+1])
            for q in A[5][::max(1, len(A[5])//14)]:
                for r in B[5][::max(1, len(B[5])//14)]:
                    kw = {key(q[1], q[0]): q[2], key(r[1], r[0]): r[2]}
                    if len(kw) < 2: continue
                    ms = [q[3], r[3]] if not flip else [r[3], q[3]]
                    verify(rec, '%s on %s' % (kw, [a.name for a in axes]), v(**kw), axes, d, ms, auxs, '2d')
    elif t == 'unknown':
        _, kind, vals = case
        a, cv, aux, w, names, alpha = alphabet(kind, vals, 3)
        v = ref.var([a], ref.data((3,)))
        for bad in ('nosuch', 'i_nosuch', 'l_nosuch', 'n_nosuch', 'm_nosuch', 's_nosuch', names[0] + 'q', 'nosuch_' + names[0] + 'q', 'i_' + names[0] + 'x'):
            for val in (0, 0., (0, 1), [0]):
                r, err = ref.attempt(lambda: v(**{bad: val}))
                rec.step()
                rec.check(err is not None, lambda: 'unknown keyword %s=%r was ignored' % (bad, val), 'unknown')
                r, err = ref.attempt(lambda: v(**{bad: val, 'i_' + names[0]: 0}))
                rec.check(err is not None, lambda: 'unknown keyword %s=%r was ignored next to a known one' % (bad, val), 'unknown')
                r, err = ref.attempt(lambda: v(ignore_mismatch=True, **{bad: val, 'i_' + names[0]: 1}))
                rec.step()
                rec.check(err is None and r.shape == (1,), lambda: 'ignore_mismatch: %s=%r gave %s' % (bad, val, err), 'unknown')
    elif t == 'chain':
        _, kind, vals = case
        n = 4
        a, cv, aux, w, names, alpha = alphabet(kind, vals, n)
        d = ref.data((n,)).astype('d')
        seen = {}
        for q in alpha: seen.setdefault(tuple(q[3].tolist()), q)
        for k, q in sorted(seen.items()):
            if not any(k): continue
            pos = np.flatnonzero(k)
            for store in ref.STORES:
                v = ref.var([a], d, store)
                u = v(**{key(q[1], q[0]): q[2]})
                for r in alpha[::max(1, len(alpha)//25)]:
                    coords = cv[pos] if not (r[0] in aux) else aux[r[0]][pos]
                    if 'i' in r[1]: coords = cv[pos]
                    try: k2 = mask(coords, r[1], r[2])
                    except IndexError: continue
                    full = np.zeros(n, bool); full[pos[k2]] = True
                    verify(rec, '%s=%r then %s=%r on %s' % (key(q[1], q[0]), q[2], key(r[1], r[0]), r[2], kind),
                           u(**{key(r[1], r[0]): r[2]}), [a], d, [full], [aux], 'chain')
