"""P09: weighted reductions apply exactly the weights of the reduced axes (or those given)."""
import itertools
import numpy as np
from . import ref

BOUND = {
 'quick': '5 weighted reductions x 6 variable layouts (up to 3-D, 0-3 weighted axes, default and explicit axis weights) x every axis subset x '
          '{default, True, False, None, explicit weights on every subset of the reduced axes in every order, in memory and lazy} x 3 storage protocols; '
          'all nan patterns of 2x3 and 4; every 1-D selection followed by a weighted reduction; zero weights; common factors; refusals.',
 'thorough': 'as quick with float32 and integer data, memory limits 1, 2, 5 and nan patterns of 3x3.'}

OPS = ['sum', 'mean', 'variance', 'nansum', 'nanmean']
DEFAULT = dict(sum=False, mean=True, variance=False, nansum=False, nanmean=True)
W = dict(w1=[.5, 2., 1., .25, 3.], w0=[0., 1., 2., 0., 1.])

LAYOUTS = {       # (kind, n, explicit weights)
    'lat': [('lat', 3, None)],
    'latlon': [('lat', 2, None), ('lon', 3, None)],
    'lonlat': [('lon', 2, None), ('lat', 3, None)],
    'w2': [('pres', 3, 'w1'), ('lat', 2, None)],
    'w3': [('pres', 2, 'w1'), ('lat', 2, 'w1'), ('lon', 3, None)],
    'now': [('foo', 2, None), ('lon', 2, None)],
    'zero': [('z', 3, 'w0'), ('lon', 2, None)],
}

def layout(name):
    axes, ws = [], []
    for kind, n, w in LAYOUTS[name]:
        kw = {} if w is None else dict(weights=np.array(W[w][:n]))
        axes.append(ref.axis(kind, n, **kw))
        if w is not None: ws.append(np.array(W[w][:n]))
        elif kind == 'lat': ws.append(np.cos(ref.VALS['neg'](n)*np.pi/180))
        else: ws.append(None)
    return axes, ws

def formula(op, d, sub, w):
    """w: array broadcastable to d, or None"""
    d = d.astype('d')
    ax = tuple(sub)
    n = int(np.prod([d.shape[i] for i in ax]))
    with np.errstate(all='ignore'):
        if w is None:
            w1 = np.ones(d.shape)
        else: w1 = np.broadcast_to(w, d.shape)
        if op == 'sum': return np.sum(w1*d, ax)
        if op == 'mean': return np.sum(w1*d, ax)/np.sum(w1, ax)
        if op == 'variance':
            m = np.sum(w1*d, ax, keepdims=True)/np.sum(w1, ax, keepdims=True)
            return np.sum(w1*(d-m)**2, ax)/(np.sum(w1, ax) - 1)
        ok = ~np.isnan(d); z = np.where(ok, d, 0.)
        if op == 'nansum': return np.sum(w1*z, ax)
        return np.sum(w1*z, ax)/np.sum(w1*ok, ax)

def outer(ws, sub, shp):
    """product of the weights of the dimensions `sub` (None if there are none)"""
    out = None
    for i in sub:
        if ws[i] is None: continue
        s = [1]*len(shp); s[i] = shp[i]
        a = ws[i].reshape(s)
        out = a if out is None else out*a
    return out

def cases(tier):
    out = []
    for name in LAYOUTS:
        for store in ref.STORES:
            for dt in ['float64'] + (['float32', 'int32'] if tier == 'thorough' else []):
                for lim in [0] + ([1, 2, 5] if tier == 'thorough' else [2]):
                    out.append(['args', name, store, dt, lim])
    for name in ['lat', 'latlon', 'lonlat', 'w2', 'zero']:
        for part in range(2): out.append(['nan', name, part])
    for name in LAYOUTS: out.append(['select', name])
    for name in LAYOUTS: out.append(['factor', name])
    out += [['offset'], ['refuse']]
    out.append(['getweights'])
    return out

def check(rec, what, op, got, want, key):
    if hasattr(got, 'get'): got = got.get()
    rec.step(); rec.state(op, np.asarray(want))
    tol = 1e-5 if 'float32' in what else 1e-9
    rec.check(ref.same(got, want, tol, tol), lambda: ref.diffmsg(what, got, want), key)

def pyg_var(n):
    import pygeode as pyg
    return pyg.Var((pyg.Lat(n),), values=np.arange(n)*1.5 + 1, name='v')

def run(case, rec):
    t = case[0]
    if t == 'args':
        _, name, store, dt, lim = case
        axes, ws = layout(name)
        shp = tuple(len(a) for a in axes)
        d = (ref.data(shp) % 13 - 4).astype(dt)
        v = ref.var(axes, d, store)
        with ref.chunks(lim):
            for op in OPS:
                for sub in ref.subsets(range(len(shp)), 0):
                    full = sub or tuple(range(len(shp)))
                    for order in itertools.permutations(sub) if len(sub) <= 2 else [sub]:
                        ids = [axes[i].name for i in order]
                        forms = [('default', {})] + [(str(w), dict(weights=w)) for w in (True, False, None)]
                        for label, kw in forms:
                            use = DEFAULT[op] if label == 'default' else label == 'True'
                            w = outer(ws, full, shp) if use else None
                            what = '%s(%s, weights=%s) of %s %s %s' % (op, ids, label, name, dt, store)
                            check(rec, what, op, getattr(v, op)(*ids, **kw), formula(op, d, full, w), '%s:%s' % (op, label))
                    for wsub in ref.subsets(full, 1):
                        for worder in itertools.permutations(wsub):
                            wd = (ref.data([shp[i] for i in worder], salt=3) % 7) / 4. + .25
                            wfull = wd.transpose(np.argsort(worder)).reshape([shp[i] if i in worder else 1 for i in range(len(shp))])
                            for ws_store in ('mem', 'getview'):
                                wv = ref.var([axes[i] for i in worder], wd, ws_store, name='w')
                                what = '%s(%s, weights=Var%s) of %s %s %s' % (op, [axes[i].name for i in sub], tuple(axes[i].name for i in worder), name, dt, store)
                                check(rec, what, op, getattr(v, op)(*[axes[i].name for i in sub], weights=wv), formula(op, d, full, wfull), '%s:var' % op)
    elif t == 'nan':
        _, name, part = case
        axes, ws = layout(name)
        shp = tuple(len(a) for a in axes)
        n = int(np.prod(shp)); base = ref.data(shp) % 13 - 4.
        for m in range(part, 1 << n, 2):
            mask = np.array([(m >> i) & 1 for i in range(n)], bool).reshape(shp)
            d = np.where(mask, np.nan, base)
            v = ref.var(axes, d, ref.STORES[m % 3])
            for op in OPS:
                for sub in ref.subsets(range(len(shp)), 1):
                    w = outer(ws, sub, shp)
                    check(rec, '%s(%s, weights=True) of %s with missing %s' % (op, [axes[i].name for i in sub], name, mask.astype(int).tolist()), op,
                          getattr(v, op)(*[axes[i].name for i in sub], weights=True), formula(op, d, sub, w), '%s:nan' % op)
    elif t == 'select':
        # weights follow the axis through a selection of any kind
        name = case[1]
        axes, ws = layout(name)
        shp = tuple(len(a) for a in axes)
        d = ref.data(shp) % 13 - 4.
        for store in ref.STORES:
            v = ref.var(axes, d, store)
            for dim, n in enumerate(shp):
                sels = [slice(None, None, -1), slice(1, None), slice(None, -1), slice(None, None, 2)] + [list(c) for r in (1, 2) for c in itertools.permutations(range(n), r)]
                for sl in sels:
                    pos = np.arange(n)[sl]
                    if not len(pos): continue
                    u = v.slice[tuple([slice(None)]*dim + [sl])]
                    e = np.take(d, pos, axis=dim)
                    ws2 = list(ws)
                    if ws[dim] is not None: ws2[dim] = ws[dim][pos]
                    for op in OPS:
                        for sub in ref.subsets(range(len(shp)), 1):
                            check(rec, '%s(%s, weights=True) of %s after selecting %s of dimension %d' % (op, [axes[i].name for i in sub], name, sl, dim), op,
                                  getattr(u, op)(*[axes[i].name for i in sub], weights=True), formula(op, e, sub, outer(ws2, sub, e.shape)), '%s:select' % op)
                    # keyword form of the mean
                    if len(pos) == 1 or pos[0] < pos[-1]:
                        lo, hi = axes[dim].values[pos].min(), axes[dim].values[pos].max()
                        keep = (axes[dim].values >= lo) & (axes[dim].values <= hi)
                        ws3 = list(ws)
                        if ws[dim] is not None: ws3[dim] = ws[dim][keep]
                        e3 = np.compress(keep, d, axis=dim)
                        check(rec, 'm_%s=(%s,%s) of %s' % (axes[dim].name, lo, hi, name), 'mean', v(**{'m_'+axes[dim].name: (lo, hi)}),
                              formula('mean', e3, (dim,), outer(ws3, (dim,), e3.shape)), 'mean:keyword')
    elif t == 'factor':
        name = case[1]
        axes, ws = layout(name)
        shp = tuple(len(a) for a in axes)
        d = ref.data(shp) % 13 - 4.; d.flat[1] = np.nan
        v = ref.var(axes, d, 'getview')
        for sub in ref.subsets(range(len(shp)), 1):
            wd = (ref.data([shp[i] for i in sub], salt=3) % 7) / 4. + .25
            for op in ('mean', 'nanmean'):
                r = [np.asarray(getattr(v, op)(*[axes[i].name for i in sub], weights=ref.var([axes[i] for i in sub], wd*f, 'mem', name='w'))[()] if len(sub) < len(shp)
                     else getattr(v, op)(*[axes[i].name for i in sub], weights=ref.var([axes[i] for i in sub], wd*f, 'mem', name='w')).get()) for f in (1., 2., .125)]
                for x in r[1:]: check(rec, '%s with scaled weights' % op, op, x, r[0], '%s:factor' % op)
    elif t == 'offset':
        # single precision far from zero: the weighted variance is not lost to cancellation, nor negative
        axes, ws = layout('latlon')
        for off in (1e5, -3e4):
            d = (ref.data((2, 3)) % 5 + off).astype('f4')
            for e in (d, np.full((2, 3), d.flat[0])):
                for store in ref.STORES:
                    v = ref.var(axes, e, store)
                    for sub in ref.subsets(range(2), 1):
                        for wsub in ref.subsets(sub, 1):
                            wd = (ref.data([(2, 3)[i] for i in wsub], salt=3) % 7) / 4. + 2.25
                            wfull = wd.reshape([(2, 3)[i] if i in wsub else 1 for i in range(2)])
                            wv = ref.var([axes[i] for i in wsub], wd, 'mem', name='w')
                            got = v.variance(*[axes[i].name for i in sub], weights=wv)
                            got = np.asarray(got.get() if hasattr(got, 'axes') else got)
                            want = formula('variance', e.astype('d'), sub, wfull)
                            rec.step()
                            rec.check(ref.same(got, want, 1e-4, 1e-4) and not (got < 0).any(), lambda: ref.diffmsg('variance(%s, weights on %s) of %s' % (sub, wsub, e.tolist()), got, want), 'offset')
    elif t == 'refuse':
        axes, ws = layout('latlon')
        v = ref.var(axes, ref.data((2, 3)), 'mem')
        other = ref.axis('lat', 3)
        for op in OPS:
            for sub, wax in ((['lat'], axes[1]), (['lon'], axes[0]), (['lat'], other)):
                wv = ref.var([wax], np.ones(len(wax)), 'mem', name='w')
                r, err = ref.attempt(lambda: getattr(v, op)(*sub, weights=wv))
                rec.step()
                rec.check(err is not None, lambda: '%s(%s, weights on %s) was accepted' % (op, sub, wax), 'refuse')
    elif t == 'getweights':
        for n in (1, 2, 3, 5):          # an axis built from its length alone
            v = pyg_var(n); x = np.arange(n)*1.5 + 1; w = np.cos(np.arange(n)*np.pi/180.)
            for op in OPS:
                check(rec, '%s(weights=True) over Lat(%d)' % (op, n), op, getattr(v, op)('lat', weights=True), formula(op, x, (0,), w), 'length')
        for name in LAYOUTS:
            axes, ws = layout(name)
            shp = tuple(len(a) for a in axes)
            v = ref.var(axes, ref.data(shp), 'mem')
            for sub in ref.subsets(range(len(shp)), 0):
                w = v.getweights([axes[i].name for i in sub])
                full = sub or range(len(shp))
                has = [i for i in full if ws[i] is not None]
                rec.step()
                want = np.array(1.)
                for i in has: want = np.multiply.outer(want, ws[i])
                ok = [a.name for a in w.axes] == [axes[i].name for i in has]
                rec.check(ok, lambda: 'getweights(%s) of %s is on %s' % (sub, name, w.axes), 'getweights')
                rec.check(ref.same(w.get(), want), lambda: ref.diffmsg('getweights(%s) of %s' % (sub, name), w.get(), want), 'getweights')
