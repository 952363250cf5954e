"""P26: composites, lags and flattened axes place every sample correctly."""
import itertools
import numpy as np
from . import ref
from .p24 import DT, long_reads

BOUND = {
 'quick': 'composite of every axis length 1 to 5, every set of events, every common length 1 to 4 and offset -2 to 3, every combination of lengths 1 to 3 and offsets -1 to 2 for up to two events, numeric and calendar axes, '
          'lag for every list of one or two lags reaching past both ends (plus longer lists), forward and reversed, flatten of every adjacent pair of up to 4 axes; as only, first, middle and last axis, 6 data types, 3 storage protocols, '
          'every single position and pair of positions along the new axes and slices of all axes read alone; clim_anoms for every year length; every strided selection (steps 1 to 5 and -1 to -3) of 11 values; refused arguments',
 'thorough': 'as quick for axis lengths up to 7, three events with individual windows, every subset of positions'}

def layouts(): return [((None,), 0), ((None, 2), 0), ((2, None), 1), ((2, None, 3), 1), ((3, 2, None), 2), ((1, None), 1)]

def cases(tier):
    N = 7 if tier == 'thorough' else 5
    out = [['refuse'], ['keys']] + [['long', 14 if tier == 'thorough' else 11, k] for k in range(8)]
    for n in range(1, N+1):
        for kind in ('lat', 'std', 'm360'):
            for r in range(1, min(n, 4)+1): out.append(['comp', n, kind, r])
        out.append(['lists', n, 3 if tier == 'thorough' else 2])
        if n > 1: out.append(['lag1', n])
        out.append(['anom', n])
    for lay in range(len(layouts())):
        for s in ref.STORES:
            for dt in DT:
                for n in (3, 4) if tier == 'quick' else (2, 3, 4, 5, 6): out.append(['lay', n, lay, s, dt, tier])
    for shape in ((2, 3), (3, 1), (1, 3), (2, 3, 2), (3, 2, 2), (2, 1, 3), (2, 2, 2, 3)):
        for inner in range(1, len(shape)):
            for s in ref.STORES:
                for dt in DT: out.append(['flat', list(shape), inner, s, dt, tier])
    return out

STEP = {'std': ('hours', 6), 'm360': ('days', 3)}
def centre(kind, n):
    """axis to composite along, and its spacing"""
    import pygeode as pyg
    if kind == 'lat': return pyg.Lat(np.arange(n)*5. - 10), None
    u, k = STEP[kind]
    cls = pyg.StandardTime if kind == 'std' else pyg.ModelTime360
    return cls(np.arange(n)*float(k), units=u, startdate=dict(year=2000, month=2, day=28)), k

def axes(lay, a):
    import pygeode as pyg
    shape, pos = layouts()[lay]
    oth = iter([pyg.Pres([1000., 300., 100.]), pyg.Lon([0., 90., 180.])])
    return tuple(a if k is None else next(oth).slice[:k] for k in shape), pos

def o_comp(d, pos, ev, evlen, evoff):
    """events and offsets in place of axis `pos`; also the offsets"""
    n = d.shape[pos]
    evlen = evlen if isinstance(evlen, list) else [evlen]*len(ev)
    evoff = evoff if isinstance(evoff, list) else [evoff]*len(ev)
    off = range(-max(evoff), max(l - o for l, o in zip(evlen, evoff)))
    m = np.moveaxis(d, pos, 0)
    out = np.full((len(ev), len(off)) + m.shape[1:], np.nan, d.dtype if d.dtype.kind in 'fc' else float)
    for i, (e, l, o) in enumerate(zip(ev, evlen, evoff)):
        for j, k in enumerate(off):
            if -o <= k < l - o and 0 <= e + k < n: out[i, j] = m[e + k]
    return np.moveaxis(out, (0, 1), (pos, pos + 1)), list(off)

def o_lag(d, pos, lags):
    n = d.shape[pos]; m = np.moveaxis(d, pos, 0)
    out = np.full((n, len(lags)) + m.shape[1:], np.nan, d.dtype if d.dtype.kind in 'fc' else float)
    for t in range(n):
        for j, k in enumerate(lags):
            if 0 <= t + k < n: out[t, j] = m[t + k]
    return np.moveaxis(out, (0, 1), (pos, pos + 1))

def pick(a, ev):
    """the events as a keyword selecting positions `ev` of the axis"""
    if a.name == 'lat': return dict(l_lat=[float(a.values[i]) for i in ev])
    return dict(l_time=[a.formatvalue(a.values[i], '$H:$M:$S $d $b $Y') for i in ev])

def run(case, rec):
    import warnings, io, contextlib; warnings.simplefilter('ignore')
    with np.errstate(all='ignore'), contextlib.redirect_stdout(io.StringIO()): globals()[case[0]](case, rec)

def head(r, pos, ev, off, step, key, rec, what):
    """axes of a composite"""
    a, b = r.axes[pos], r.axes[pos+1]
    ok = a.name == 'event' and list(a.indices) == list(ev) and list(a.values) == list(range(1, len(ev)+1)) and list(b.values) == [k*(step or 1) for k in off]
    rec.check(ok, lambda: '%s: axes %s %s %s' % (what, a.indices, a.values, b.values), key)

def comp(case, rec):
    _, n, kind, r = case
    a, step = centre(kind, n)
    if step and n < 2: step = 0
    d = ref.data((n,)); v = ref.var((a,), d, 'mem', name='t'); key = 'composite-%s' % kind
    for ev in itertools.combinations(range(n), r):
        for evlen in range(1, 5):
            for evoff in range(-2, 4):
                want, off = o_comp(d, 0, ev, evlen, evoff)
                what = 'composite of %d values (%s), events %s, length %d, offset %d' % (n, kind, ev, evlen, evoff)
                c, err = ref.attempt(lambda: v.composite(evlen=evlen, evoff=evoff, **pick(a, ev)))
                if step == 0: continue                      # offsets undefined without a time step
                if not rec.check(err is None, lambda: '%s raises %r' % (what, err), key): continue
                head(c, 0, ev, off, step, key, rec, what)
                g, err = ref.attempt(c.get); rec.step(); rec.state(kind, want)
                rec.check(err is None and ref.same(g, want), lambda: '%s: %r %s' % (what, err, ref.diffmsg('', g, want)), key)

def lists(case, rec):
    _, n, R = case
    a, step = centre('lat', n); d = ref.data((n, 2))
    import pygeode as pyg
    v = ref.var((a, pyg.Lon([0., 10.])), d, 'getview', name='t'); key = 'composite-lists'
    for r in range(1, min(n, R)+1):
        for ev in itertools.combinations(range(n), r):
            for evlen in [2, 3] + [list(l) for l in itertools.product((1, 2, 3), repeat=r)]:
                for evoff in [0, 1] + [list(l) for l in itertools.product((-1, 0, 1, 2), repeat=r)]:
                    if r == 3 and isinstance(evlen, list) and isinstance(evoff, list) and sum(evlen) % 2: continue
                    want, off = o_comp(d, 0, ev, evlen, evoff)
                    if len(off) == 0: continue
                    what = 'composite of %d values, events %s, lengths %s, offsets %s' % (n, ev, evlen, evoff)
                    mine = (list(evlen) if isinstance(evlen, list) else evlen, list(evoff) if isinstance(evoff, list) else evoff)
                    c, err = ref.attempt(lambda: v.composite(evlen=evlen, evoff=evoff, **pick(a, ev)))
                    if not rec.check(err is None, lambda: '%s raises %r' % (what, err), key): continue
                    head(c, 0, ev, off, step, key, rec, what)
                    rec.check((evlen, evoff) == mine, lambda: '%s: changed to %s, %s' % (what, evlen, evoff), key)
                    g, err = ref.attempt(c.get); rec.step(); rec.state(want)
                    rec.check(err is None and ref.same(g, want), lambda: '%s: %r %s' % (what, err, ref.diffmsg('', g, want)), key)

def reads(r, want, at, tier, one):
    """selections along axis `at`"""
    n = want.shape[at]
    one(at, slice(None))
    for i in range(n): one(at, [i])
    for c in itertools.permutations(range(n), 2): one(at, list(c))
    if tier == 'thorough':
        for k in range(3, n+1):
            for c in itertools.combinations(range(n), k): one(at, list(c))
    for s in (slice(1, None), slice(None, -1), slice(None, None, -1), slice(None, None, 2), slice(-1, 0, -2)):
        if len(range(n)[s]): one(at, s)

def reader(r, want, what, key, rec):
    nd = want.ndim
    def one(at, s, at2=None, s2=None):
        g, err = ref.attempt(lambda: r.slice[tuple(s if i == at else s2 if i == at2 else slice(None) for i in range(nd))].get()); rec.step()
        w = np.take(want, np.arange(want.shape[at])[s], axis=at)
        if at2 is not None: w = np.take(w, np.arange(want.shape[at2])[s2], axis=at2)
        rec.check(err is None and ref.same(g, w), lambda: '%s axis %d [%s] axis %s [%s]: %r %s' % (what, at, s, at2, s2, err, ref.diffmsg('', g, w)), key)
    return one

def lay(case, rec):
    import pygeode as pyg
    _, n, li, store, dt, tier = case
    for kind in ('lat', 'std'):
        a, step = centre(kind, n)
        ax, pos = axes(li, a)
        shape = tuple(len(b) for b in ax)
        d = (ref.data(shape) % 89); d = (d*(1+2j) if dt == 'complex128' else d).astype(dt)
        v = ref.var(ax, d, store, name='t', atts={'k': 1})
        outdt = dt if np.dtype(dt).kind in 'fc' else 'float64'
        ops = []
        for ev, evlen, evoff in (((0, n-1), 3, 1), (tuple(range(n)), 2, 0), ((n-1,), 4, 3), ((0, 1, n-1), [1, 3, 2], [0, 2, -1])):
            if len(set(ev)) < len(ev): continue
            ops.append(('composite-lay', 'events %s %s %s' % (ev, evlen, evoff), lambda ev=ev, evlen=evlen, evoff=evoff: v.composite(evlen=evlen, evoff=evoff, **pick(a, ev)), o_comp(d, pos, ev, evlen, evoff)[0]))
        if kind == 'std':
            for lags in ([0], [1], [-1, 0, 2], [2, -1], [n+1], [-n-2, 1]):
                ops.append(('lag-lay', 'lags %s' % lags, lambda lags=lags: v.lag('time', lags), o_lag(d, pos, lags)))
        for key, name, f, want in ops:
            what = '%s of %s %s axis %d (%s)' % (name, dt, shape, pos, store)
            r, err = ref.attempt(f)
            if not rec.check(err is None, lambda: '%s raises %r' % (what, err), key): continue
            rest = r.axes[:pos] + r.axes[pos+2:]
            rec.check(rest == ax[:pos] + ax[pos+1:] if key == 'composite-lay' else rest == ax[:pos] + ax[pos+1:], lambda: '%s: axes %s' % (what, r.axes), key)
            rec.check(r.shape == want.shape and r.dtype == np.dtype(outdt) and r.name == 't', lambda: '%s: shape %s, type %s, name %s' % (what, r.shape, r.dtype, r.name), key)
            one = reader(r, want, what, key, rec)
            reads(r, want, pos, tier, one); reads(r, want, pos+1, tier, one)
            for i in range(want.ndim):
                if i not in (pos, pos+1): one(i, [want.shape[i]-1]); one(i, slice(None, None, -1))
            for i in range(want.shape[pos]):
                for j in range(want.shape[pos+1]): one(pos, [i], pos+1, [j])
            one(pos, slice(None, None, -1), pos+1, slice(None, None, -1)); one(pos, slice(1, None), pos+1, slice(1, None))
            rec.state(key, want)

def lag1(case, rec):
    _, n = case
    key = 'lag'
    R = range(-n-1, n+2)
    for kind in ('std', 'm360'):
        a, step = centre(kind, n); d = ref.data((n,)); v = ref.var((a,), d, 'mem', name='t')
        for lags in [[k] for k in R] + [list(c) for c in itertools.permutations(R, 2)] + [list(R), list(R)[::-1], [0, 1, -1], np.arange(3), range(-1, 3)]:
            for rev in (False, True):
                want = o_lag(d, 0, list(lags)); off = [k*step for k in lags]
                if rev: want, off = want[:, ::-1], [-k for k in off[::-1]]
                r, err = ref.attempt(lambda: v.lag('time', lags, reverse=rev))
                what = 'lags %s (reverse %s) of %d values (%s)' % (lags, rev, n, kind)
                if not rec.check(err is None, lambda: '%s raises %r' % (what, err), key): continue
                rec.check(r.axes[0] == a and r.axes[1].name == 'lag' and list(r.axes[1].values) == off and r.axes[1].units == a.units, lambda: '%s: axes %s, %s' % (what, r.axes, r.axes[1].values), key)
                g, err = ref.attempt(r.get); rec.step(); rec.state(kind, want)
                rec.check(err is None and ref.same(g, want), lambda: '%s: %r %s' % (what, err, ref.diffmsg('', g, want)), key)
                for j in range(len(off)):
                    g, err = ref.attempt(lambda: r(s_lag=off[j])[:]); rec.step()
                    rec.check(err is None and ref.same(g, want[:, j]), lambda: '%s at lag %s: %r %s' % (what, off[j], err, ref.diffmsg('', g, want[:, j])), key)

def flat(case, rec):
    import pygeode as pyg
    _, shape, inner, store, dt, tier = case
    key = 'flatten'
    pool = [pyg.NamedAxis(np.arange(4)*1., 'q'), pyg.Pres([1000., 300., 100.]), pyg.Lat([0., 5., 10.]), pyg.Lon([0., 90., 180.])]
    ax = tuple(p.slice[:k] for p, k in zip(pool, shape)); shape = tuple(shape)
    d = (ref.data(shape) % 89); d = (d*(1+2j) if dt == 'complex128' else d).astype(dt)
    v = ref.var(ax, d, store, name='t')
    out = inner - 1
    want = d.reshape(shape[:out] + (-1,) + shape[inner+1:])
    new = pyg.NamedAxis(np.arange(want.shape[out])*2., 'f')
    for form, f in (('default', lambda: v.flatten(inner)), ('given', lambda: v.flatten(inner, new))):
        r, err = ref.attempt(f); what = 'flatten %d (%s) of %s %s (%s)' % (inner, form, dt, shape, store)
        if not rec.check(err is None, lambda: '%s raises %r' % (what, err), key): continue
        rec.check(r.shape == want.shape and r.dtype == want.dtype and r.axes[:out] + r.axes[out+1:] == ax[:out] + ax[inner+1:] and (form != 'given' or r.axes[out] == new) and (form == 'given' or type(r.axes[out]) is type(ax[out])), lambda: '%s: %s' % (what, r), key)
        if form == 'default': rec.check(list(r.axes[out].values) == [i*shape[inner] + x for i in range(shape[out]) for x in ax[inner].values], lambda: '%s: coordinates %s' % (what, r.axes[out].values), key)
        one = reader(r, want, what, key, rec)
        reads(r, want, out, tier, one)
        for i in range(want.ndim):
            if i != out: one(i, [want.shape[i]-1]); one(i, slice(None, None, -1), out, slice(1, None))
        rec.state(want)

def anom(case, rec):
    """clim_anoms: mean over years and the departures from it"""
    import pygeode as pyg
    from pygeode.composite import clim_anoms
    _, n = case
    for extra in (0, 1, 2):
        for m in range(1, n+1):
            N = n*m + extra
            if N < 2 or extra >= n: continue
            t = pyg.StandardTime(np.arange(N)*1., units='days', startdate=dict(year=2001, month=1, day=1))
            for ax, pos in (((t,), 0), ((pyg.Lat([0., 1.]), t), 1), ((t, pyg.Lon([0., 10., 20.])), 0)):
                d = ref.data(tuple(len(a) for a in ax)); v = ref.var(ax, d, 'getview', name='x')
                got, err = ref.attempt(lambda: clim_anoms(v, n)); rec.step()
                what = 'clim_anoms(%d) of %s' % (n, d.shape)
                if not rec.check(err is None, lambda: '%s raises %r' % (what, err), 'anom'): continue
                c, z = got
                k = np.moveaxis(d, pos, 0)[:n*m].reshape((m, n) + tuple(np.delete(d.shape, pos)))
                wc, wz = k.mean(0), (k - k.mean(0)).reshape((n*m,) + k.shape[2:])
                wc, wz = np.moveaxis(wc, 0, pos), np.moveaxis(wz, 0, pos)
                rec.state(wz)
                for g, w, s in ((c, wc, 'climatology'), (z, wz, 'anomaly')):
                    x, err = ref.attempt(g.get)
                    rec.check(err is None and ref.same(x, w, 1e-9, 1e-6), lambda: '%s %s: %r %s' % (what, s, err, ref.diffmsg('', x, w)), 'anom')
                rec.check(z.axes[pos] == t.slice[:n*m], lambda: '%s: axes %s' % (what, z.axes), 'anom')

def keys(case, rec):
    """every way of naming the events"""
    import pygeode as pyg
    a, step = centre('std', 6)
    y = pyg.Lat(np.arange(6)*5. - 10)
    for order in ((a, y), (y, a)):
        d = ref.data((6, 6)); v = ref.var(order, d, 'mem', name='t')
        ti, yi = order.index(a), order.index(y)
        F = lambda i: a.formatvalue(a.values[i], '$H:$M:$S $d $b $Y')
        for kw, pos, ev in ((dict(time=F(2)), ti, [2]), (dict(i_time=3), ti, [3]), (dict(i_time=-1), ti, [5]), (dict(time=(F(1), F(3))), ti, [1, 2, 3]), (dict(i_time=(1, 4)), ti, [1, 2, 3]),
                            (dict(l_time=[F(4), F(1)]), ti, [1, 4]), (dict(hour=12), ti, [2]), (dict(l_hour=(0, 18)), ti, [0, 3, 4]),
                            (dict(lat=0), yi, [2]), (dict(lat=(-5, 5)), yi, [1, 2, 3]), (dict(i_lat=(0, 6, 2)), yi, [0, 2, 4]), (dict(n_lat=(0, 20)), yi, [0, 1]), (dict(l_lat=[15., -10.]), yi, [0, 5])):
            want, off = o_comp(d, pos, ev, 3, 1)
            c, err = ref.attempt(lambda: v.composite(evlen=3, evoff=1, **kw))
            what = 'composite(%s)' % kw
            if not rec.check(err is None, lambda: '%s raises %r' % (what, err), 'keys'): continue
            head(c, pos, ev, off, step if pos == ti else None, 'keys', rec, what)
            g, err = ref.attempt(c.get); rec.step(); rec.state(str(kw))
            rec.check(err is None and ref.same(g, want), lambda: '%s: %r %s' % (what, err, ref.diffmsg('', g, want)), 'keys')

def refuse(case, rec):
    import pygeode as pyg
    a, step = centre('std', 5); y = pyg.Lat(np.arange(5)*5. - 10)
    v = ref.var((a, y), ref.data((5, 5)), 'mem', name='t')
    for what, f in dict(none=lambda: v.composite(evlen=2), two=lambda: v.composite(evlen=2, i_time=1, i_lat=1), unknown=lambda: v.composite(evlen=2, i_pres=1), nolen=lambda: v.composite(i_time=2), lens=lambda: v.composite(evlen=[1, 2], i_lat=3),
                        offs=lambda: v.composite(evlen=2, evoff=[1, 2, 3], i_lat=3), lagaxis=lambda: v.lag('lat', [1]), flat0=lambda: v.flatten(0), flat=lambda: v.flatten()).items():
        g, err = ref.attempt(f); rec.step(); rec.state(what)
        rec.check(err is not None, lambda: '%s is accepted: %s' % (what, g), 'refuse')

def long(case, rec):
    import pygeode as pyg
    _, n, k = case
    a, step = centre('std', n); d = ref.data((n,)) % 89 + 0.
    v = ref.var((a,), d, 'getview', name='t')
    if k < 3:
        lags = [[-1, 0, 2], [3], [-4, 4]][k]
        long_reads(rec, v.lag('time', lags), o_lag(d, 0, lags), n, 'lags %s of %d times' % (lags, n), 'lag-long')
    elif k < 6:
        ev = tuple(range(1, n, 2)); w = [(4, 1), ([1 + i % 4 for i in range(len(ev))], [i % 3 - 1 for i in range(len(ev))]), (n+4, 2)][k-3]
        want, off = o_comp(d, 0, ev, *w); c = v.composite(evlen=w[0], evoff=w[1], **pick(a, ev))
        long_reads(rec, c, want, len(ev), 'composite of %d times, events %s, windows %s' % (n, ev, w), 'composite-long')
        tr = c.transpose(1, 0)
        long_reads(rec, tr, want.T, len(off), 'transposed composite of %d times, events %s, windows %s' % (n, ev, w), 'composite-long')
    else:
        m = [2, 4][k-6]; f = ref.data((3, m)) % 89 + 0.
        u = ref.var((pyg.Lat([0., 1., 2.]), pyg.Lon(np.arange(m)*10.)), f, 'getview', name='t')
        long_reads(rec, u.flatten(1), f.reshape(-1), 3*m, 'flattened 3 by %d' % m, 'flatten-long')
