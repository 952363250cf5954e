"""P02: selecting from a derived variable equals deriving, then selecting."""
import itertools
import numpy as np
from . import ref, ops

BOUND = {
 'quick': 'every derived variable of a catalogue of 250 (one per operation and way of using it, with repeated coordinates, missing values and chains of operations) x 3 storage protocols x every subset and every '
          'sequence of up to 2 positions (axes of up to 3: 3 positions) of each axis, the standard slices, masks and the empty selection, alone; 5 selections of each axis in combination with 5 of every other one; selections of selections (for the in-memory and getview protocols: sequences one shorter, 3 x 3 combinations)',
 'thorough': 'as quick with every sequence of up to 4 positions, combined with 12 selections of every other axis and selections of three axes'}

def single(n, tier, small=False):
    """selections of one axis, as (selector, positions)"""
    out = []; seen = set()
    def a(s):
        p = tuple(np.arange(n)[s].tolist())
        k = (p, type(s).__name__)
        if k not in seen: seen.add(k); out.append((s, list(p)))
    for s in (slice(1, None), slice(None, -1), slice(None, None, 2), slice(1, None, 2), slice(None, None, -1), slice(None, None, -2), slice(-1, None), slice(0, 1), slice(-2, 0, -1)): a(s)
    L = (4 if n <= 3 else 3) if tier == 'thorough' else (3 if n <= 3 else 2)
    if small: L -= 1
    for r in range(1, L+1):
        for c in itertools.product(range(n), repeat=r): a(list(c))
    for r in range(L+1, n+1 if not small else L+2):
        for c in itertools.combinations(range(n), r): a(list(c))
    if n: a(list(range(n))[::-1] + [0]); a([n-1, 0, n-1, n//2])
    a(slice(0, 0)); a(np.arange(n) % 2 == 0)
    return out

def few(n, k=7):
    s = [slice(1, None), slice(None, None, -1), [n-1, 0], slice(0, 1), [n//2], [0, 0, n-1], slice(None, None, 2), slice(None, -1), [n-1], slice(None, None, -2), [0, n-1, n//2], slice(1, 2)][:k]
    return [(x, np.arange(n)[x].tolist()) for x in s]

def axkey(a): return (type(a).__name__, a.name, np.asarray(a.values).tolist() if type(a).__name__ not in ('Station', 'NonCoordinateAxis') else len(a), sorted((k, np.asarray(v).tolist()) for k, v in a.auxarrays.items()))

def axsel(a, p):
    return (type(a).__name__, a.name, np.asarray(a.values)[p].tolist() if type(a).__name__ not in ('Station', 'NonCoordinateAxis') else len(p), sorted((k, np.asarray(v)[p].tolist()) for k, v in a.auxarrays.items()))

def cases(tier):
    return [[l, s, tier] for l, _ in ops.catalogue() for s in ref.STORES]

def outputs(f, store):
    """the derived variables of one catalogue entry"""
    import pygeode as pyg
    r = f(ops.Inputs(store))
    return [x for x in (r if isinstance(r, tuple) else (r,)) if isinstance(x, pyg.Var)]

def run(case, rec):
    import warnings; warnings.simplefilter('ignore')
    with np.errstate(all='ignore'): _run(case, rec)

def _run(case, rec):
    label, store, tier = case
    f = dict(ops.catalogue())[label]
    R, err = ref.attempt(lambda: outputs(f, store))
    if not rec.check(err is None, lambda: '%s (%s): raises %r' % (label, store, err), label): return
    for r in R:
        full, err = ref.attempt(lambda: np.array(r.get()))
        if not rec.check(err is None, lambda: '%s (%s): raises %r' % (label, store, err), label): continue
        rec.check(full.shape == r.shape and full.dtype == r.dtype, lambda: '%s (%s): shape %s %s, values %s %s' % (label, store, r.shape, r.dtype, full.shape, full.dtype), label)
        rec.state(label, r.name, full)
        scale = np.abs(full[np.isfinite(full)]).max() if full.dtype.kind in 'fc' and np.isfinite(full).any() else 1.
        nd = full.ndim
        def one(sel, key=label):
            """sel: {axis: (selector, positions)}"""
            s = tuple(sel[i][0] if i in sel else slice(None) for i in range(nd))
            want = full
            for i, (_, p) in sel.items(): want = np.take(want, p, axis=i)
            rec.step()
            w, err = ref.attempt(lambda: r.slice[s])
            if not rec.check(err is None, lambda: '%s (%s) %s[%s]: raises %r' % (label, store, r.name, s, err), key): return
            g, err = ref.attempt(lambda: w.get())
            if not rec.check(err is None and ref.same(g, want, 1e-9, 1e-11*scale + 1e-300, dtype=True), lambda: '%s (%s) %s%s[%s]: %r %s' % (label, store, r.name, r.shape, s, err, ref.diffmsg('', g, want)), key): return
            for i, a in enumerate(w.axes):
                k = axsel(r.axes[i], sel[i][1]) if i in sel else axkey(r.axes[i])
                if not rec.check(axkey(a) == k, lambda: '%s (%s) [%s]: axis %s, expected %s' % (label, store, s, axkey(a), k), key): return
            return w
        small = tier == 'quick' and store != 'getvalues'
        for i in range(nd):
            for s in single(full.shape[i], tier, small): one({i: s})
        k = 12 if tier == 'thorough' else 3 if small else 5
        F = [few(n, k) for n in full.shape]
        if all(full.shape):
            for i, j in itertools.combinations(range(nd), 2):
                for s in F[i]:
                    for t in F[j]: one({i: s, j: t})
            if tier == 'thorough':
                for i, j, l in itertools.combinations(range(nd), 3):
                    for s, t, u in itertools.product(F[i][:7], F[j][:7], F[l][:7]): one({i: s, j: t, l: u})
            # selections of selections
            for i in range(nd):
                for s, p in F[i]:
                    w = r.slice[tuple(s if k == i else slice(None) for k in range(nd))]
                    a = np.take(full, p, axis=i)
                    if not a.size: continue
                    for j in range(nd):
                        for t, q in few(a.shape[j], 4):
                            g, err = ref.attempt(lambda: w.slice[tuple(t if k == j else slice(None) for k in range(nd))].get()); rec.step()
                            want = np.take(a, q, axis=j)
                            rec.check(err is None and ref.same(g, want, 1e-9, 1e-11*scale + 1e-300), lambda: '%s (%s): axis %d %s then axis %d %s: %r %s' % (label, store, i, s, j, t, err, ref.diffmsg('', g, want)), label)
