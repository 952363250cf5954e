"""P01: slicing a lazy variable gives exactly what slicing its array gives, and relabels its axes identically.

States: index arrays into the source array, one per dimension (canonical; reached by chains of selectors).
Transitions: every selector of the bounded alphabet applied to every reached state, executed on the real
variable by replaying its whole chain, for each storage protocol.
"""
import itertools
import numpy as np
from . import ref

BOUND = {
 'quick': '1-D n<=4: every slice with start/stop in {None,-n-2..n+2}, step in {None,+-1,+-2,+-3}, every integer, every index list of length<=3 '
          '(repeats allowed), every boolean mask, all chains of length 2 from every reached state; 2-D 2x3 and 3x2: all pairs of 25-element selector alphabets, '
          'chains of 2; 3-D 2x2x3: all triples of 9-element alphabets; 3 storage protocols; 12 axis kinds x coordinate families; Ellipsis at every position',
 'thorough': 'as quick with n<=5, chains of length 3 in 1-D, 2-D up to 3x4, 3-D up to 2x3x3 with chains of 2'}

# a selector is JSON: ['s',a,b,c] slice; ['i',k]; ['l',[..]]; ['b',[..]]
def py(sel):
    t = sel[0]
    if t == 's': return slice(sel[1], sel[2], sel[3])
    if t == 'i': return sel[1]
    if t == 'l': return list(sel[1])
    if t == 'a': return np.array(sel[1], 'int64')
    if t == 'b': return np.array(sel[1], bool)
    if t == 'e': return Ellipsis

def pick(pos, sel):
    """reference: positions selected, and whether the dimension is dropped by []"""
    pos = np.asarray(pos)
    t = sel[0]
    if t == 'i': return pos[[sel[1]]]
    if t in 'la': return pos[np.asarray(sel[1], dtype=int)]
    return pos[py(sel)]

def selectors(n, rich):
    out = []
    if rich:
        rng = [None] + list(range(-n-2, n+3))
        for st in (None, 1, -1, 2, -2, 3, -3):
            for a in rng:
                for b in rng: out.append(['s', a, b, st])
        for L in range(1, 4):
            for c in itertools.product(range(n), repeat=L): out.append(['l', list(c)])
        for c in itertools.product(range(-n, n), repeat=2) if n else []: out.append(['a', list(c)])
        for m in itertools.product((False, True), repeat=n): out.append(['b', list(m)])
    else:
        cand = [(None, None, None), (1, None, None), (None, -1, None), (None, None, -1), (None, None, 2), (None, None, -2),
                (0, 1, None), (1, 2, None), (-1, None, None), (n, None, None), (2, 0, -1), (-1, -n-1, -1), (0, n, 1), (1, 1, None)]
        out += [['s']+list(c) for c in cand]
        if n >= 2: out += [['l', [0]], ['l', [n-1, 0]], ['l', [0, 0]], ['l', [1, 0, 1]], ['a', [-1, 0]], ['b', [i % 2 == 0 for i in range(n)]]]
        if n >= 3: out += [['l', [0, 2]], ['l', [2, 0, 1]]]
    for k in range(-n, n): out.append(['i', k])
    return out

KINDS = [('x', 'inc'), ('x', 'uns'), ('x', 'neg'), ('x', 'tiny'), ('x', 'wide'), ('x', 'int'), ('x', 'f32'), ('lat', 'neg'), ('lon', 'zero'),
         ('pres', 'dec'), ('hyb', 'dec'), ('foo', 'inc'), ('axis', 'inc'), ('dummy', None), ('station', None), ('std', None), ('m365', None), ('yearless', None), ('foo', 'dup'), ('x', 'dup'), ('pres', 'dup')]

def canon(states, n):
    """one selector per distinct reachable position tuple"""
    out = {}
    for sel in selectors(n, True):
        p = tuple(pick(np.arange(n), sel).tolist())
        out.setdefault(p, sel)
    return out

def cases(tier):
    N = 4 if tier == 'quick' else 5
    out = []
    for n in range(1, N+1):
        for store in ref.STORES:
            for kind, vals in KINDS:
                if n < 3 or store == 'mem' or (kind, vals) in (('x', 'inc'), ('x', 'uns')) or tier == 'thorough':
                    out.append(['1d', kind, vals, n, store, []])
    # chains: every reached state, then every selector again
    for n in range(2, N+1):
        for k, (p, sel) in enumerate(sorted(canon(None, n).items())):
            if len(p) == 0: continue
            kind, vals = KINDS[k % len(KINDS)]
            store = ref.STORES[k % 3]
            out.append(['1d', kind, vals, n, store, [sel]])
            if tier == 'thorough' and n <= 3:
                m = len(p)
                for q, sel2 in sorted(canon(None, m).items()):
                    if len(q): out.append(['1d', KINDS[(k+len(q)) % len(KINDS)][0], KINDS[(k+len(q)) % len(KINDS)][1], n, store, [sel, sel2]])
    two = [(('lat', 'neg'), ('lon', 'inc')), (('x', 'uns'), ('foo', 'inc')), (('pres', 'dec'), ('std', None)), (('foo', 'int'), ('bar', 'inc'))]
    shapes = [(2, 3), (3, 2)] + ([(3, 4), (4, 1)] if tier == 'thorough' else [])
    for shp in shapes:
        for i, s0 in enumerate(selectors(shp[0], False)):
            out.append(['nd', two[i % len(two)], shp, ref.STORES[i % 3], [s0], 1])
    for shp in shapes[:2] if tier == 'quick' else shapes:
        sels = [selectors(k, False) for k in shp]
        for i, s0 in enumerate(sels[0]):
            for j, s1 in enumerate(sels[1]):
                if tier == 'quick' and (i+j) % 3: continue       # fixed third of the first-level pairs; all of them in thorough
                out.append(['nd2', two[(i+j) % len(two)], shp, ref.STORES[(i+j) % 3], [s0, s1]])
    for shp in [(2, 2, 3)] + ([(2, 3, 3), (3, 1, 2)] if tier == 'thorough' else []):
        s3 = [small(k) for k in shp]
        for i, s0 in enumerate(s3[0]):
            out.append(['3d', [('std', None), ('lat', 'neg'), ('lon', 'inc')], shp, ref.STORES[i % 3], s0])
    for nd in (1, 2, 3): out.append(['ell', nd])
    return out

def small(n):
    out = [['s', None, None, None], ['s', None, None, -1], ['s', 1, None, None], ['s', None, None, 2], ['i', -1], ['i', 0]]
    if n >= 2: out += [['l', [n-1, 0]], ['l', [0, 0, 1]], ['b', [i != 0 for i in range(n)]]]
    return out

def build(spec, shp, store):
    axes = [ref.axis(k, n, v) for (k, v), n in zip(spec, shp)]
    names = set()
    d = ref.data(shp)
    return axes, d, ref.var(axes, d, store)

def expect_axis(rec, got, src, pos, where):
    """got must be src restricted to positions pos (coordinate, auxiliary arrays, class, name)"""
    want = src.values[pos]
    ok = ref.same(got.values, want, 0, 0) and got.name == src.name and type(got) is type(src)
    if type(src).__name__ == 'Station': ok = len(got.values) == len(pos) and got.name == src.name and type(got) is type(src)
    rec.check(ok, lambda: ref.diffmsg('%s: coordinate of axis %s' % (where, src.name), got.values, want))
    for k, a in src.auxarrays.items():
        g = got.auxarrays.get(k)
        rec.check(g is not None and np.array_equal(np.asarray(g), a[pos]), lambda: '%s: auxiliary array %s of %s does not follow the selection' % (where, k, src.name))

def compare(rec, v, axes, d, poss, sels, where, do_axes=True):
    """apply selectors to lazy variable v (currently at positions poss) both ways; returns (lazy result, new positions)"""
    npos = [pick(p, s) for p, s in zip(poss, sels)]
    npos += list(poss[len(sels):])
    want = d[np.ix_(*npos)]
    key = tuple(py(s) for s in sels)
    if len(key) == 1 and sels[0][0] in "si": key = key[0]
    lz = v.slice[key]
    rec.step()
    rec.check(lz.shape == want.shape, lambda: '%s: lazy shape %s, expected %s' % (where, lz.shape, want.shape))
    got = lz.get()
    rec.check(ref.same(got, want, 0, 0, dtype=True), lambda: ref.diffmsg(where + ' .slice', got, want))
    if do_axes:
        for a, src, p in zip(lz.axes, axes, npos): expect_axis(rec, a, src, p, where)
    raw = v[key]
    rec.step()
    drop = tuple(0 if s[0] == 'i' else slice(None) for s in sels)
    wraw = want[drop] if all(want.shape) else None
    if wraw is not None: rec.check(ref.same(raw, wraw, 0, 0), lambda: ref.diffmsg(where + ' []', raw, wraw))
    rec.state(*[tuple(p.tolist()) for p in npos])
    return lz, npos

def run(case, rec):
    t = case[0]
    if t == '1d':
        _, kind, vals, n, store, path = case
        axes, d, v = build([(kind, vals)], (n,), store)
        poss = [np.arange(n)]
        cur = v
        for s in path:
            cur = cur.slice[(py(s),)]; poss = [pick(poss[0], s)]
        m = len(poss[0])
        rich = (len(path) == 0 or kind == 'x' or m <= 3)
        for s in selectors(m, rich):
            w = pick(poss[0], s)
            compare(rec, cur, axes, d, poss, [s], 'chain %s then %s' % (path, s))
    elif t == 'nd':
        _, spec, shp, store, (s0,), _k = case
        axes, d, v = build(spec, shp, store)
        for s1 in selectors(shp[1], False):
            compare(rec, v, axes, d, [np.arange(k) for k in shp], [s0, s1], 'select %s,%s' % (s0, s1))
        compare(rec, v, axes, d, [np.arange(k) for k in shp], [s0], 'select %s' % (s0,))
    elif t == 'nd2':
        _, spec, shp, store, path = case
        axes, d, v = build(spec, shp, store)
        lz, pos = compare(rec, v, axes, d, [np.arange(k) for k in shp], path, 'select %s' % (path,))
        for s0 in small(len(pos[0])):
            if not fits(s0, len(pos[0])): continue
            for s1 in small(len(pos[1])):
                if not fits(s1, len(pos[1])): continue
                compare(rec, lz, axes, d, pos, [s0, s1], 'select %s then %s,%s' % (path, s0, s1))
    elif t == '3d':
        _, spec, shp, store, s0 = case
        axes, d, v = build(spec, shp, store)
        pos = [np.arange(k) for k in shp]
        for s1 in small(shp[1]):
            for s2 in small(shp[2]):
                lz, npos = compare(rec, v, axes, d, pos, [s0, s1, s2], 'select %s,%s,%s' % (s0, s1, s2))
                for w in (['s', None, None, -1], ['s', 0, 1, None]):
                    compare(rec, lz, axes, d, npos, [w, w, w], 'select %s,%s,%s then %s' % (s0, s1, s2, w))
    elif t == 'ell':
        nd = case[1]
        shp = (2, 3, 2)[:nd]
        spec = [('std', None), ('lat', 'neg'), ('lon', 'inc')][:nd]
        for store in ref.STORES:
            axes, d, v = build(spec, shp, store)
            for r in range(0, nd+1):
                for pre in range(0, r+1):
                    for sels in itertools.product([['s', None, None, -1], ['i', -1], ['l', [1, 0]], ['s', 1, None, None]], repeat=r):
                        key = tuple(py(s) for s in sels[:pre]) + (Ellipsis,) + tuple(py(s) for s in sels[pre:])
                        full = list(sels[:pre]) + [['s', None, None, None]]*(nd-r) + list(sels[pre:])
                        pos = [pick(np.arange(k), s) for k, s in zip(shp, full)]
                        want = d[np.ix_(*pos)]
                        rec.step(2); rec.state('ell', tuple(tuple(p.tolist()) for p in pos))
                        k1 = key
                        got = v.slice[k1].get()
                        rec.check(ref.same(got, want, 0, 0), lambda: ref.diffmsg('slice %r' % (key,), got, want))
                        raw = v[key]
                        w2 = want[tuple(0 if s[0] == 'i' else slice(None) for s in full)]
                        rec.check(ref.same(raw, w2, 0, 0), lambda: ref.diffmsg('[%r]' % (key,), raw, w2))

def fits(s, n):
    if s[0] == 'i': return -n <= s[1] < n
    if s[0] in 'la': return all(-n <= k < n for k in s[1])
    if s[0] == 'b': return len(s[1]) == n
    return True
