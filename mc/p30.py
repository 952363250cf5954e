"""P30: EOF and SVD decompositions reproduce the data they decompose."""
import io, itertools, contextlib
import numpy as np
from . import ref

BOUND = {
 'quick': 'EOF_svd, EOF_cov, EOF_iter, EOF_guess and every number of modes up to the rank, for every matrix of 2x2 values in -2..2, of 3x2, 2x3, 4x1 and 1x4 values in -1..1, of 3x3 values in 0..1 and in -1, 1, with distinct singular values; '
          'variables of 2 to 4 axes in every order, with every choice of 1 or 2 record axes in 5 notations, 7 weightings, 3 storage protocols, 5 memory limits, every order of pairs of the 6 outputs in 3 notations; SVD of every pair of a 2x2 matrix of values in -1..1 and 6 others, and of every 3x2 matrix of values -1..1 with 3 others; every axis order, notation and weighting of both fields',
 'thorough': 'the same with every 3x3 matrix of values in -1..1 and every 4x2 matrix of values in -1..1, twice the matrices for SVD and 12 memory limits'}

NOTE = ', numpy.linalg.svd, Python and the reference model. Modes are compared where the singular values differ by a factor of 1.1 at least (the modes are not determined otherwise), for at most as many modes as the rank; EOF_guess only where the number of modes is the rank, otherwise it is an approximation.'
SETS = {'a': (-1, 0, 1), 'b': (0, 1), 'c': (-1, 1), 'd': (-2, -1, 0, 1, 2)}
TOL = dict(svd=1e-7, cov=1e-5, iter=1e-3, guess=1e-5, auto=1e-3)
SOL = ['svd', 'cov', 'iter', 'guess']

def cases(tier):
    out = []
    for nt, nx, s in [(2, 2, 'd'), (3, 2, 'a'), (2, 3, 'a'), (4, 1, 'a'), (1, 4, 'a'), (3, 3, 'b'), (3, 3, 'c')] + ([(3, 3, 'a'), (4, 2, 'a')] if tier == 'thorough' else []):
        n = len(SETS[s])**min(nx, nt*nx - nx, 3)
        for f in SOL:
            for b in range(n): out.append(['mat', f, nt, nx, s, b, n])
    for lay in LAY:
        for f in SOL[:3] + ['auto']: out += [['lay', lay, f, tier]]
    for f in SOL[:3]: out += [['outs', f]]
    for b in range(9): out += [['smat', '2x2', b, 9, tier], ['smat', '3x2', b, 9, tier]]
    for m in ('cov', 'cor'):
        for i in range(len(SLAY)): out += [['slay', m, i, tier]]
    return out

def run(case, rec):
    import warnings; warnings.simplefilter('ignore')
    with np.errstate(all='ignore'): globals()['r_' + case[0]](case, rec)

def solver(f):
    from pygeode import eof
    return eof.EOF if f == 'auto' else getattr(eof, 'EOF_' + f)

def quiet(fn):
    np.random.seed(20)
    with contextlib.redirect_stdout(io.StringIO()): return ref.attempt(fn)

def T(n):
    import pygeode as pyg
    return pyg.StandardTime(np.arange(n)*1., units='days', startdate=dict(year=2000, month=1, day=1))

def distinct(s):
    """Number of leading modes that are determined."""
    r = int((s > 1e-9*max(s[0], 1e-9)).sum()) if len(s) and s[0] > 1e-9 else 0
    for i in range(r-1):
        if s[i]/s[i+1] < 1.1: return 0
    return r

def modes(rec, what, key, tol, X, w, num, E, G, P, svd=None):
    """E, G, P: (num, nx), (num), (num, nt) for data X (nt, nx) and normalised weights w (nx)."""
    u, s, v = svd or np.linalg.svd(X*np.sqrt(w), full_matrices=False)
    sc = s[0]; I = np.eye(num)
    if not rec.check(np.abs((E*w) @ E.T - I).max() < tol, lambda: '%s: EOFs are not orthonormal: %r' % (what, ((E*w) @ E.T).tolist()), key + ':orthonormal'): return False
    if not rec.check(np.abs(P @ P.T - I).max() < tol, lambda: '%s: principal components are not orthonormal: %r' % (what, (P @ P.T).tolist()), key + ':pc'): return False
    if not rec.check(np.abs(G - s[:num]).max() < tol*sc, lambda: '%s: eigenvalues %r instead of %r' % (what, G.tolist(), s[:num].tolist()), key + ':eig'): return False
    for i in range(num):
        a = G[i]*np.outer(P[i], E[i]); b = s[i]*np.outer(u[:, i], v[i]/np.sqrt(w))
        if not rec.check(np.abs(a - b).max() < tol*sc*3, lambda: '%s: mode %d is %r instead of %r' % (what, i, a.tolist(), b.tolist()), key + ':mode'): return False
    return True

def r_mat(case, rec):
    import pygeode as pyg
    _, f, nt, nx, sn, b, nb = case
    S = SETS[sn]; fn = solver(f); t = T(nt); sp = pyg.NamedAxis(nx, 'p'); w = np.ones(nx)
    for j, m in enumerate(itertools.product(S, repeat=nt*nx)):
        if j % nb != b: continue
        X = np.array(m, float).reshape(nt, nx)
        svd = np.linalg.svd(X, full_matrices=False); s = svd[1]; r = distinct(s)
        if not r: continue
        v = pyg.Var((t, sp), values=X, name='v')
        for num in [r] if f == 'guess' else range(1, r+1):
            what = 'EOF_%s of %r, %d modes' % (f, X.tolist(), num)
            o, err = quiet(lambda: fn(v, num, weight=False, out='eof,eig,pc,eig2,var,frac')); rec.step()
            if not rec.check(err is None, lambda: '%s: %r' % (what, err), 'mat:%s:error' % f): continue
            E, G, P, G2, V, F = [np.asarray(z.get() if hasattr(z, 'get') else z) for z in o]
            if not rec.check(E.shape == (num, nx) and G.shape == (num,) and P.shape == (num, nt), lambda: '%s: shapes %r' % (what, (E.shape, G.shape, P.shape)), 'mat:%s:shape' % f): continue
            if not modes(rec, what, 'mat:' + f, TOL[f], X, w, num, E, G, P, svd): continue
            extras(rec, what, 'mat:' + f, TOL[f], s, num, G2, V, F)
            rec.state((f, nt, nx, sn, j, num, tuple(np.round(s[:num], 3))))

def extras(rec, what, key, tol, s, num, G2, V, F):
    tot = (s**2).sum()
    rec.check(np.abs(G2 - s[:num]**2).max() < 3*tol*tot, lambda: '%s: eigenvalues of the covariance matrix %r instead of %r' % (what, G2.tolist(), (s[:num]**2).tolist()), key + ':eig2')
    rec.check(np.ndim(V) == 0 and abs(float(V) - tot) < 3*tol*tot, lambda: '%s: variance %r instead of %r' % (what, V, tot), key + ':var')
    rec.check(np.abs(F - s[:num]**2/tot).max() < 3*tol, lambda: '%s: fractions of variance %r instead of %r' % (what, F.tolist(), (s[:num]**2/tot).tolist()), key + ':frac')

# ---- layouts --------------------------------------------------------------------------------------
LAY = ['ty', 'yt', 'tyx', 'ytx', 'yxt', 'ety', 'tey', 'yet', 'etyx', 'yext', 'ab', 'aby', 'p1', 'ty1']

def ax():
    import pygeode as pyg
    return dict(t=T(4), y=pyg.Lat([60., 20., -35.]), x=pyg.Lon([0., 120.]), e=pyg.NamedAxis(2, 'ens'), a=pyg.NamedAxis([1., 5., 2., 8.], 'a'), b=pyg.NamedAxis([3., 1., 2.], 'b'), p=pyg.Pres([850., 500., 100., 10., 1.]))

def layout(lay):
    A = ax(); out = []
    import pygeode as pyg
    for c in lay: out.append(pyg.NamedAxis([4.], 'one') if c == '1' else A[c])
    return out

def records(lay):
    """(positions of the record axes, iaxis arguments)"""
    out = []
    if 't' in lay: out.append(('t', ['none', 'class', 'name', 'int', 'obj', 'list']))
    else: out.append((lay[0], ['none', 'name', 'int', 'obj', 'tuple']))
    if 'e' in lay: out += [('et', ['names', 'ints', 'mixed']), ('te', ['names', 'objs']), ('e', ['name', 'int'])]
    if lay in ('tyx', 'ytx', 'ty'): out += [('y', ['class', 'name', 'int'])]
    return [r for r in out if len(r[0]) < len(lay)]

def iarg(v, lay, recs, form):
    import pygeode as pyg
    ids = [lay.index(c) for c in recs]; ob = [v.axes[i] for i in ids]
    return {'none': lambda: None, 'class': lambda: type(ob[0]) if recs != 't' else pyg.timeaxis.Time, 'name': lambda: ob[0].name, 'int': lambda: ids[0], 'obj': lambda: ob[0], 'list': lambda: [ob[0].name], 'tuple': lambda: (ids[0],),
            'names': lambda: tuple(a.name for a in ob), 'ints': lambda: tuple(ids), 'objs': lambda: list(ob), 'mixed': lambda: (ob[0].name, ids[1]) }[form]()

def values(lay, A, i):
    """Values with well separated singular values along any of the groupings: a sum of few separable terms."""
    n = [len(a) for a in A]
    r = np.random.RandomState(100*i + len(lay)*7 + sum(map(ord, lay)))
    return np.round(r.uniform(-3, 3, n)*8)/8

def weightings(lay, A, sp):
    import pygeode as pyg
    y = 'y' in sp
    out = [('False', False, None), ('None', None, None), ('True', True, np.cos(np.radians([60., 20., -35.])) if y else None)]
    byname = dict(zip(lay, A))
    for k, cs in enumerate(([sp[0]], sp, sp[::-1], [sp[-1]])):
        n = [len(byname[c]) for c in cs]
        d = 1. + (np.arange(int(np.prod(n))) % 3).reshape(n)*.5 + k*.25
        out.append((''.join(cs), pyg.Var([byname[c] for c in cs], values=d, name='w%d' % k), (cs, d)))
    return out

def wspace(sp, A, lay, w):
    """Normalised weights over the flattened space axes."""
    byname = dict(zip(lay, A)); n = [len(byname[c]) for c in sp]
    if w is None: return np.ones(n).ravel()
    if not isinstance(w, tuple): w = (['y'], w)
    cs, d = w
    d = d/d.mean()
    order = [cs.index(c) for c in sp if c in cs]
    d = d.transpose(order).reshape([len(byname[c]) if c in cs else 1 for c in sp])
    return (np.ones(n)*d).ravel()

def r_lay(case, rec):
    import pygeode as pyg
    _, lay, f, tier = case
    A = layout(lay); fn = solver(f); old = pyg.MAX_ARRAY_SIZE
    for recs, forms in records(lay):
        sp = [c for c in lay if c not in recs]
        perm = [lay.index(c) for c in recs] + [lay.index(c) for c in sp]
        nt = int(np.prod([len(A[lay.index(c)]) for c in recs])); nx = int(np.prod([len(A[lay.index(c)]) for c in sp]))
        runs = [(fm, 'mem', wi, None, num, 0) for fm in forms for wi in (2,) for num in (1, 2)]
        runs += [(forms[0], 'mem', wi, None, num, 1) for wi in range(7) for num in (1, 3)]
        lims = (1, 2, 3) if tier == 'quick' else range(1, 10)
        runs += [(forms[0], st, wi, k, 2, 2) for st in ('mem', 'getview', 'getvalues') for k in lims for wi in (0, 3)]
        for fm, st, wi, lim, num, salt in runs:
            if wi == 2 and 'y' in recs: wi = 0      # weights along the record axis are not supported
            d = values(lay, A, salt)
            v = ref.var(A, d, st, name='temp', atts={'units': 'K'})
            wname, warg, wref = weightings(lay, A, sp)[wi]
            w = wspace(sp, A, lay, wref)
            X = d.transpose(perm).reshape(nt, nx)
            svd = np.linalg.svd(X*np.sqrt(w), full_matrices=False); s = svd[1]
            num = min(num, len(s))
            if distinct(s) == 0 or s[num-1] < 1e-9*s[0]: rec.outcome('undetermined'); continue
            what = 'EOF %s of axes %s, record axes %s (%s), weights %s, limit %s, %s, %d modes' % (f, lay, recs, fm, wname, lim, st, num)
            key = 'lay:%s' % f
            try:
                if lim is not None: pyg.MAX_ARRAY_SIZE = nx*lim + (nx > 1)
                o, err = quiet(lambda: fn(v, num, iaxis=iarg(v, lay, recs, fm), weight=warg, out='PC,EOF,EIG,FRAC,VAR,EIG2'))
            finally: pyg.MAX_ARRAY_SIZE = old
            rec.step()
            if not rec.check(err is None, lambda: '%s: %r' % (what, err), key + ':error'): continue
            P, E, G = o[:3]
            ok = rec.check([a.name for a in E.axes[1:]] == [A[lay.index(c)].name for c in sp] and all(a == A[lay.index(c)] for a, c in zip(E.axes[1:], sp)), lambda: '%s: axes of the EOFs %r' % (what, E.axes), key + ':axes')
            ok = ok and rec.check(all(a == A[lay.index(c)] for a, c in zip(P.axes[1:], recs)) and P.naxes == len(recs)+1, lambda: '%s: axes of the principal components %r' % (what, P.axes), key + ':axes')
            ok = ok and rec.check(E.axes[0] == P.axes[0] == G.axes[0] and len(G.axes) == 1 and len(G.axes[0]) == num, lambda: '%s: order axes %r' % (what, G.axes), key + ':axes')
            if not ok: continue
            if modes(rec, what, key, TOL[f], X, w, num, E.get().reshape(num, nx), G.get(), P.get().reshape(num, nt), svd):
                V = o[4]
                extras(rec, what, key, TOL[f], s, num, o[5].get(), np.asarray(V.get() if hasattr(V, 'get') else V), o[3].get())
            rec.check(np.array_equal(np.asarray(v.get()), d), lambda: '%s: the input changed' % what, key + ':input')
            rec.state((lay, recs, fm, st, wname, lim, num))

NAMES = dict(eof=['eof', 'eofs', 'EOF'], eig=['eig', 'eigenvalue', 'eigenvalues', 'EIG'], pc=['pc', 'timeseries', 'PC'], var=['var', 'variance', 'VAR'], frac=['frac', 'varfrac', 'Frac'], eig2=['eig2', 'EIG2'])

def r_outs(case, rec):
    """The outputs are those requested, in the order requested."""
    import pygeode as pyg
    f = case[1]; fn = solver(f)
    A = layout('tyx'); d = values('tyx', A, 3); v = ref.var(A, d, 'mem', name='q'); X = d.reshape(4, 6)
    u, s, vt = np.linalg.svd(X, full_matrices=False); tol = TOL[f]
    def good(k, z):
        z = np.asarray(z.get() if hasattr(z, 'get') else z)
        if k == 'eof': return z.shape == (2, 3, 2) and np.abs(np.abs(z.reshape(2, 6)) - np.abs(vt[:2])).max() < tol*3
        if k == 'pc': return z.shape == (2, 4) and np.abs(np.abs(z) - np.abs(u.T[:2])).max() < tol*3
        if k == 'eig': return z.shape == (2,) and np.abs(z - s[:2]).max() < tol*3*s[0]
        if k == 'eig2': return z.shape == (2,) and np.abs(z - s[:2]**2).max() < tol*3*s[0]**2
        if k == 'frac': return z.shape == (2,) and np.abs(z - s[:2]**2/(s**2).sum()).max() < tol*3
        return z.shape == () and abs(z - (s**2).sum()) < tol*(s**2).sum()
    reqs = [None] + [[k] for k in NAMES] + [list(p) for p in itertools.permutations(NAMES, 2)] + [list(NAMES), list(NAMES)[::-1]]
    for r in reqs:
        for form in ('str', 'list', 'tuple') if r else ('none',):
            for alias in range(4 if r and len(r) == 1 else 1):
                if r:
                    nm = [NAMES[k][alias % len(NAMES[k])] for k in r]
                    arg = ','.join(nm) if form == 'str' else list(nm) if form == 'list' else tuple(nm)
                else: arg = None
                o, err = quiet(lambda: fn(v, 2, weight=False, out=arg)); rec.step()
                what = 'EOF_%s, out=%r' % (f, arg)
                if not rec.check(err is None, lambda: '%s: %r' % (what, err), 'outs:%s:error' % f): continue
                want = r or ['eof', 'eig', 'pc']
                rec.check(len(o) == len(want) and all(good(k, z) for k, z in zip(want, o)), lambda: '%s returned %r' % (what, o), 'outs:%s' % f)
                rec.state((f, str(arg)))
    for bad in ('nonsense', 'eof,nonsense'):
        o, err = quiet(lambda: fn(v, 2, weight=False, out=bad)); rec.step()
        rec.check(err is not None, lambda: 'EOF_%s accepted out=%r' % (f, bad), 'outs:%s:unknown' % f)

# ---- coupled fields -------------------------------------------------------------------------------
def smodes(rec, what, key, X, Y, w1, w2, num, E, P, F, Q, tol=1e-3):
    """Decomposition of the covariance matrix of X and Y (weights normalised)."""
    Xw = X*np.sqrt(w1); Yw = Y*np.sqrt(w2)
    u, s, vt = np.linalg.svd(Xw.T @ Yw, full_matrices=False)
    I = np.eye(num); sc = s[0]
    ok = rec.check(np.abs((E*w1) @ E.T - I).max() < tol and np.abs((F*w2) @ F.T - I).max() < tol, lambda: '%s: EOFs are not orthonormal: %r %r' % (what, ((E*w1) @ E.T).tolist(), ((F*w2) @ F.T).tolist()), key + ':orthonormal')
    n1 = max(np.abs(Xw).max(), 1e-9)*np.sqrt(X.shape[1]); n2 = max(np.abs(Yw).max(), 1e-9)*np.sqrt(Y.shape[1])
    ok = ok and rec.check(np.abs(P - (E*w1) @ X.T).max() < tol*n1 and np.abs(Q - (F*w2) @ Y.T).max() < tol*n2, lambda: '%s: expansion coefficients %r %r' % (what, P.tolist(), Q.tolist()), key + ':pc')
    ok = ok and rec.check(np.abs(P @ Q.T - np.diag(s[:num])).max() < 3*tol*sc, lambda: '%s: covariances of the expansion coefficients %r instead of %r' % (what, (P @ Q.T).tolist(), s[:num].tolist()), key + ':eig')
    for i in range(num):
        a = np.outer(E[i]*np.sqrt(w1), F[i]*np.sqrt(w2)); b = np.outer(u[:, i], vt[i])
        ok = ok and rec.check(np.abs(a - b).max() < 3*tol, lambda: '%s: mode %d is %r instead of %r' % (what, i, a.tolist(), b.tolist()), key + ':mode')
    return ok

def r_smat(case, rec):
    import pygeode as pyg
    _, kind, b, nb, tier = case
    nt, nx = (2, 2) if kind == '2x2' else (3, 2)
    k = (6 if kind == '2x2' else 3)*(2 if tier == 'thorough' else 1)
    r = np.random.RandomState(4); t = T(nt); p = pyg.NamedAxis(nx, 'p')
    Ys = [r.randint(-2, 3, (nt, n)).astype(float) for n in (1, 2, 3, 2, 4, 3, 2, 1, 2, 3, 4, 2)[:k]]
    for j, m in enumerate(itertools.product((-1, 0, 1), repeat=nt*nx)):
        if j % nb != b: continue
        X = np.array(m, float).reshape(nt, nx)
        a = pyg.Var((t, p), values=X, name='a')
        for Y in Ys:
            s = np.linalg.svd(X.T @ Y, compute_uv=False); rk = distinct(s)
            if not rk: continue
            n = Y.shape[1]; c = pyg.Var((t, pyg.NamedAxis(n, 'q')), values=Y, name='b')
            for num in range(1, rk+1):
                what = 'SVD of %r and %r, %d modes' % (X.tolist(), Y.tolist(), num)
                o, err = quiet(lambda: pyg.SVD(a, c, num, weight1=False, weight2=False)); rec.step()
                if not rec.check(err is None, lambda: '%s: %r' % (what, err), 'smat:error'): continue
                E, P, F, Q = [z.get() for z in o]
                if not rec.check(E.shape == (num, nx) and P.shape == (num, nt) and F.shape == (num, n) and Q.shape == (num, nt), lambda: '%s: shapes %r' % (what, [z.shape for z in (E, P, F, Q)]), 'smat:shape'): continue
                smodes(rec, what, 'smat', X, Y, np.ones(nx), np.ones(n), num, E, P, F, Q)
                rec.state((kind, j, n, num, tuple(np.round(s[:num], 3))))

SLAY = [('ty', 'tx'), ('ty', 'xt'), ('yt', 'tx'), ('tyx', 'tp'), ('ytx', 'pt'), ('yxt', 'tp'), ('ab', 'ap'), ('ay', 'ax'), ('ty', 'tyx'), ('ty', 'ty')]

def r_slay(case, rec):
    import pygeode as pyg
    _, matrix, i, tier = case
    l1, l2 = SLAY[i]; rc = 't' if 't' in l1 else 'a'
    A1, A2 = layout(l1), layout(l2); old = pyg.MAX_ARRAY_SIZE
    same = l1.index(rc) == l2.index(rc)
    forms = (['default', 'name', 'class'] if rc == 't' else ['name'] + (['default'] if l1[0] == l2[0] == rc else [])) + (['int'] if same else [])
    s1, s2 = [c for c in l1 if c != rc], [c for c in l2 if c != rc]
    def flat(d, lay, sp): return d.transpose([lay.index(rc)] + [lay.index(c) for c in sp]).reshape(d.shape[lay.index(rc)], -1)
    def pick(fm): return {'default': {}, 'name': dict(iaxis=A1[l1.index(rc)].name), 'class': dict(iaxis=pyg.timeaxis.Time), 'int': dict(iaxis=l1.index(rc))}[fm]
    W1, W2 = weightings(l1, A1, s1), weightings(l2, A2, s2)
    ws = [j for j in range(7) if j != 1] if matrix == 'cov' else [0]
    runs = [(fm, 'mem', a, b, None, num) for fm in forms for a in ws for b in ws for num in (1, 2)]
    runs += [(forms[0], st, 0, 0, k, 2) for st in ('mem', 'getview', 'getvalues') for k in ((1, 2, 3) if tier == 'quick' else range(1, 10))]
    for fm, st, a, b, lim, num in runs:
        d1, d2 = values(l1, A1, 5), values(l2, A2, 6)
        v1, v2 = ref.var(A1, d1, st, name='u'), ref.var(A2, d2, st, name='v')
        X, Y = flat(d1, l1, s1), flat(d2, l2, s2)
        w1, w2 = wspace(s1, A1, l1, W1[a][2]), wspace(s2, A2, l2, W2[b][2])
        z1, z2 = np.ones(X.shape[1]), np.ones(Y.shape[1])
        if matrix == 'cor': z1, z2 = X.std(0, ddof=1), Y.std(0, ddof=1)
        s = np.linalg.svd((X/z1*np.sqrt(w1)).T @ (Y/z2*np.sqrt(w2)), compute_uv=False)
        num = min(num, len(s))
        if not distinct(s) or s[num-1] < 1e-9*s[0]: rec.outcome('undetermined'); continue
        what = 'SVD (%s) of axes %s and %s, record axis %s, weights %s %s, limit %s, %s, %d modes' % (matrix, l1, l2, fm, W1[a][0], W2[b][0], lim, st, num)
        try:
            if lim is not None: pyg.MAX_ARRAY_SIZE = max(X.shape[1], Y.shape[1])*lim
            o, err = quiet(lambda: pyg.SVD(v1, v2, num, weight1=W1[a][1], weight2=W2[b][1], matrix=matrix, **pick(fm)))
        finally: pyg.MAX_ARRAY_SIZE = old
        rec.step()
        if not rec.check(err is None, lambda: '%s: %r' % (what, err), 'slay:error'): continue
        E, P, F, Q = o
        ok = all(x == A1[l1.index(c)] for x, c in zip(E.axes[1:], s1)) and all(x == A2[l2.index(c)] for x, c in zip(F.axes[1:], s2)) and P.axes[1:] == (A1[l1.index(rc)],) and Q.axes[1:] == (A2[l2.index(rc)],)
        ok = ok and E.shape[0] == F.shape[0] == P.shape[0] == Q.shape[0] == num and E.naxes == len(l1) and F.naxes == len(l2)
        if not rec.check(ok, lambda: '%s: axes %r' % (what, [z.axes for z in o]), 'slay:axes'): continue
        rec.check([z.name for z in o] == ['u_EOF', 'u_PC', 'v_EOF', 'v_PC'], lambda: '%s: names %r' % (what, [z.name for z in o]), 'slay:names')
        smodes(rec, what, 'slay:' + matrix, X/z1, Y/z2, w1, w2, num, E.get().reshape(num, -1)/z1, P.get(), F.get().reshape(num, -1)/z2, Q.get())
        rec.state((l1, l2, fm, st, a, b, lim, num, matrix))
