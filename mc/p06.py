"""P06: element-wise operations equal numpy broadcasting by axis name."""
import itertools
import operator
import numpy as np
from . import ref

BOUND = {
 'quick': 'all 16x16 pairs of axis arrangements (every ordered subset of three axes of length 2,3,2) x 16 binary operators and functions x storage protocols; '
          'all triples of the 10 arrangements of two axes for vsum/vprod and nested expressions; all pairs of 9 dtypes and 8 kinds of scalar (both sides) x 13 operators; '
          'all pairs of 8 special values; 34 unary functions x dtypes x special values; all depth-2 expressions over 3 operands; memory limits 1,2,5; every sub-selection of 2-operand results',
 'thorough': 'as quick with every pair of arrangements read under every memory limit and depth-3 expressions'}

KIND = dict(a=('x', 2), b=('foo', 3), c=('pres', 2))
ARR = [''.join(p) for r in range(4) for s in itertools.combinations('abc', r) for p in itertools.permutations(s)]
SIZE = dict(a=2, b=3, c=2)

def _bin():
    import pygeode as pyg
    import math
    deg = 180/math.pi
    return {
     '+': (operator.add, operator.add), '-': (operator.sub, operator.sub), '*': (operator.mul, operator.mul), '/': (operator.truediv, operator.truediv),
     '**': (operator.pow, operator.pow), '%': (operator.mod, operator.mod), '<': (operator.lt, operator.lt), '<=': (operator.le, operator.le),
     '>': (operator.gt, operator.gt), '>=': (operator.ge, operator.ge), '==': (operator.eq, operator.eq), '!=': (operator.ne, operator.ne),
     'arctan2': (pyg.arctan2, np.arctan2), 'arctand2': (pyg.arctand2, lambda x, y: np.arctan2(x, y)*deg), 'minimum': (pyg.minimum, np.minimum), 'maximum': (pyg.maximum, np.maximum),
     'vsum': (pyg.vsum, np.add), 'vprod': (pyg.vprod, np.multiply)}

def _un():
    import pygeode as pyg
    r = np.pi/180
    u = {nm: (getattr(pyg, nm), getattr(np, nm)) for nm in ('abs', 'absolute', 'sign', 'exp', 'log', 'log10', 'cos', 'sin', 'tan', 'cosh', 'sinh', 'tanh', 'sqrt', 'real', 'imag', 'conj', 'angle',
         'arccos', 'arcsin', 'arctan', 'arccosh', 'arcsinh', 'arctanh', 'nan_to_num') if hasattr(pyg, nm)}
    u.update({'cosd': (pyg.cosd, lambda x: np.cos(x*r)), 'sind': (pyg.sind, lambda x: np.sin(x*r)), 'tand': (pyg.tand, lambda x: np.tan(x*r)),
              'arccosd': (pyg.arccosd, lambda x: np.arccos(x)/r), 'arcsind': (pyg.arcsind, lambda x: np.arcsin(x)/r), 'arctand': (pyg.arctand, lambda x: np.arctan(x)/r),
              'neg': (operator.neg, operator.neg), 'pos': (operator.pos, operator.pos), 'abs()': (operator.abs, operator.abs),
              'trunc': (lambda v: v.__trunc__(), lambda x: np.asarray(x, int))})
    return u

DT = ['bool', 'uint8', 'int16', 'int32', 'int64', 'float32', 'float64', 'complex64', 'complex128']
SPECIAL = [np.nan, np.inf, -np.inf, 0., -0., 1., -2.5, 1e300]
SCAL = [('int', 3), ('negint', -2), ('float', 2.5), ('complex', 1+2j), ('f8', np.float64(1.5)), ('f4', np.float32(.5)), ('i4', np.int32(2)), ('i8', np.int64(-3)), ('true', True)]

def axes(names, cache={}):
    out = []
    for c in names:
        if c not in cache: cache[c] = ref.axis(KIND[c][0], SIZE[c])
        out.append(cache[c])
    return out

def operand(names, salt, dt='float64', store='mem'):
    d = ((ref.data([SIZE[c] for c in names], salt=salt) % 7) - (3 if dt[0] in 'fic' and dt != 'uint8' else 0))
    d = (d > 2) if dt == 'bool' else (d.astype(dt) if dt[0] != 'c' else (d + 1j*(d[..., ] * .5 - 1)).astype(dt))
    return ref.var(axes(names), d, store, name='v%d' % salt), d

def spread(d, names, out):
    """numpy view of d (dimensions `names`) broadcastable against dimensions `out`"""
    o = [names.index(c) for c in out if c in names]
    return np.transpose(d, o).reshape([SIZE[c] if c in names else 1 for c in out])

def letters(var):
    inv = {axes(c)[0].name: c for c in 'abc'}
    return ''.join(inv[a.name] for a in var.axes)

def compare(rec, what, u, want_f, names, key, dt=None, tol=1e-12):
    """u: result; want_f(out) -> expected full array on dims `out`; names: set of dims expected"""
    rec.step()
    got = letters(u)
    if not rec.check(sorted(got) == sorted(names) and len(set(got)) == len(got), lambda: '%s: axes %r, expected each of %r once' % (what, got, ''.join(sorted(names))), key): return
    want = want_f(got)
    want = np.broadcast_to(want, [SIZE[c] for c in got])
    if dt is not None:
        rec.check(u.dtype == dt, lambda: '%s: dtype %s, expected %s' % (what, u.dtype, dt), key + ':dtype')
        want = want.astype(dt) if want.dtype.kind != 'c' or np.dtype(dt).kind == 'c' else want
    g = u.get()
    rec.state(want)
    rec.check(g.dtype == u.dtype, lambda: '%s: dtype %s but values are %s' % (what, u.dtype, g.dtype), key + ':dtype')
    rec.check(ref.same(g, want, tol, tol), lambda: ref.diffmsg(what, g, want), key)

def cases(tier):
    out = []
    for l in ARR:
        for r in ARR:
            out.append(['pair', l, r])
    for d1 in DT: out.append(['dtype', d1])
    for d1 in DT: out.append(['scalar', d1])
    for i in range(len(SPECIAL)): out.append(['special', i])
    for d1 in DT: out.append(['unary', d1])
    for l in ARR[:]:
        if 'c' in l: continue
        out.append(['triple', l])
    for i in range(12): out.append(['expr', i, 2 if tier == 'quick' else 3])
    for l in ('ab', 'ba', 'a', 'cab'): out.append(['select', l])
    out.append(['misc'])
    return out

def run(case, rec):
    with np.errstate(all='ignore'): _run(case, rec)

def _run(case, rec):
    t = case[0]
    B = _bin()
    if t == 'pair':
        _, l, r = case
        names = set(l+r)
        k = (ARR.index(l)*7 + ARR.index(r)) % 9
        for st, nm in ((k, 0), ((k+4) % 9, 0), (k % 3 * 4, 1)):
            x, dx = operand(l, 1, store=ref.STORES[st % 3]); y, dy = operand(r, 2, store=ref.STORES[st // 3])
            if nm: y.name = x.name        # different variables of the same name
            for op, (f, g) in B.items():
                for lim in (0, 1, 2, 5):
                    if lim and op not in ('-', '**'): continue
                    with ref.chunks(lim):
                        compare(rec, '%s %s %s (limit %s)' % (l, op, r, lim), f(x, y), lambda o: g(spread(dx, l, o), spread(dy, r, o)), names, 'pair:' + op)
    elif t == 'dtype':
        d1 = case[1]
        for d2 in DT:
            x, dx = operand('ab', 1, d1); y, dy = operand('ba', 2, d2)
            for op, (f, g) in B.items():
                if op == '**' and np.dtype(d1).kind in 'iub' and np.dtype(d2).kind in 'i': continue     # integer to negative power: refused
                dyt = spread(dy, 'ba', 'ab')
                want, err = ref.attempt(lambda: g(dx, dyt))
                if err is not None: continue              # not defined by numpy for these dtypes
                u, err = ref.attempt(lambda: f(x, y))
                if not rec.check(err is None, lambda: '%s %s %s failed: %r' % (d1, op, d2, err), 'dtype'): continue
                compare(rec, '%s %s %s' % (d1, op, d2), u, lambda o: g(spread(dx, 'ab', o), spread(dy, 'ba', o)), 'ab', 'dtype', want.dtype if op != 'arctand2' else None, 1e-6 if '32' in d1+d2 or '64' in d1+d2 else 1e-2 if op == 'arctand2' else 1e-12)
    elif t == 'scalar':
        d1 = case[1]
        x, dx = operand('ab', 1, d1)
        for nm, s in SCAL:
            wide = {bool: 'int64', int: 'int64', float: 'float64', complex: 'complex128'}.get(type(s)) or s.dtype
            for op, (f, g) in B.items():
                for side in 'LR':
                    if type(s) not in (bool, int, float, complex) and side == 'L' and op in '+-***/%<=>===!=': continue      # numpy scalar on the left
                    if op == '**' and np.dtype(d1).kind in 'iub' and np.dtype(wide).kind in 'i': continue
                    a, b = (x, s) if side == 'R' else (s, x)
                    na, nb = (dx, s) if side == 'R' else (s, dx)
                    want, err = ref.attempt(lambda: np.asarray(g(na, nb)))
                    if err is not None: continue
                    u, err = ref.attempt(lambda: f(a, b))
                    if not rec.check(err is None, lambda: '%s %s %s (%s) failed: %r' % (d1, op, nm, side, err), 'scalar'): continue
                    tol = 1e-5 if '32' in d1 or '16' in d1 or '8' in d1 or 'bool' in d1 or d1 == 'complex64' or nm == 'f4' else 1e-9
                    compare(rec, '%s %s scalar %s on the %s' % (d1, op, s, side), u, lambda o: np.asarray(g(spread(dx, 'ab', o), s) if side == 'R' else g(s, spread(dx, 'ab', o))), 'ab', 'scalar:' + op,
                            None, 1e-2 if op == 'arctand2' and d1 in ('bool', 'uint8', 'int16') else tol)
                    # the declared dtype can hold what numpy returns
                    ndt = np.asarray(want).dtype
                    rec.check(np.can_cast(ndt, u.dtype), lambda: '%s %s scalar %s on the %s: dtype %s, numpy gives %s' % (d1, op, s, side, u.dtype, ndt), 'scalar:dtype')
    elif t == 'special':
        i = case[1]
        for s in SPECIAL:
            dx = np.full((2,), SPECIAL[i]); dy = np.full((2,), s)
            x = ref.var(axes('a'), dx); y = ref.var(axes('a'), dy, 'getview')
            for op, (f, g) in B.items():
                compare(rec, '%s %s %s' % (SPECIAL[i], op, s), f(x, y), lambda o: g(dx, dy), 'a', 'special')
                compare(rec, '%s %s scalar %s' % (SPECIAL[i], op, s), f(x, s), lambda o: g(dx, s), 'a', 'special')
                compare(rec, 'scalar %s %s %s' % (s, op, SPECIAL[i]), f(s, x), lambda o: g(s, dx), 'a', 'special')
    elif t == 'unary':
        d1 = case[1]
        for nm, (f, g) in _un().items():
            for names in ('', 'a', 'ba', 'cba'):
                x, dx = operand(names, 1, d1, ref.STORES[len(names) % 3])
                if nm not in ('neg', 'pos', 'trunc') and np.dtype(d1).kind in 'fc' and names:
                    dx = dx.copy(); dx.flat[:2] = [np.nan, np.inf]; x = ref.var(axes(names), dx)
                if nm == 'trunc' and np.dtype(d1).kind == 'c': continue
                want, err = ref.attempt(lambda: np.asarray(g(dx)))
                if err is not None: continue
                u, err = ref.attempt(lambda: f(x))
                if not rec.check(err is None, lambda: '%s(%s) failed: %r' % (nm, d1, err), 'unary'): continue
                exact = nm in ('abs', 'neg', 'sign', 'sqrt', 'exp', 'cos')
                compare(rec, '%s(%s %s)' % (nm, d1, names), u, lambda o: g(dx), names, 'unary', want.dtype if exact else None, 2e-3 if want.dtype == 'float16' or d1 in ('bool', 'uint8') else 1e-5 if d1 in ('int16', 'float32', 'complex64') else 1e-9)
                if hasattr(x, nm) and nm not in ('real', 'imag'):
                    compare(rec, '.%s(%s %s)' % (nm, d1, names), getattr(x, nm)(), lambda o: g(dx), names, 'unary', None, 2e-3 if want.dtype == 'float16' or d1 in ('bool', 'uint8') else 1e-5 if d1 in ('int16', 'float32', 'complex64') else 1e-9)
    elif t == 'triple':
        import pygeode as pyg
        l = case[1]
        for m in ARR:
            for r in ARR:
                if 'a' in m and 'a' in r and 'c' in m and 'c' in r: continue
                x, dx = operand(l, 1); y, dy = operand(m, 2, store='getview'); z, dz = operand(r, 3, store='getvalues')
                S = lambda o: (spread(dx, l, o), spread(dy, m, o), spread(dz, r, o))
                compare(rec, 'vsum(%s,%s,%s)' % (l, m, r), pyg.vsum(x, y, z), lambda o: sum(S(o)), set(l+m+r), 'triple')
                compare(rec, 'vprod(%s,%s,%s)' % (l, m, r), pyg.vprod(x, y, z), lambda o: S(o)[0]*S(o)[1]*S(o)[2], set(l+m+r), 'triple')
                compare(rec, 'clip(%s,%s,%s)' % (l, m, r), pyg.clip(x, y, z), lambda o: np.clip(*S(o)), set(l+m+r), 'triple')
                compare(rec, '%s-%s*%s' % (l, m, r), x - y*z, lambda o: S(o)[0]-S(o)[1]*S(o)[2], set(l+m+r), 'triple')
    elif t == 'expr':
        _, seed, depth = case
        names = ['ab', 'b', 'ca']
        leaves = [(operand(nm, i+1, store=ref.STORES[i]), nm) for i, nm in enumerate(names)]
        leaf = [(v, (lambda d, nm: lambda o: spread(d, nm, o))(d, nm), set(nm), nm) for (v, d), nm in leaves] + [(2.5, lambda o: 2.5, set(), '2.5')]
        ops = ['+', '-', '*', '/', '<', 'minimum']
        un = {'neg': (operator.neg, operator.neg), 'abs': (operator.abs, operator.abs)}
        # compositional check: the value of a nested expression is numpy's
        def combine(xs, ys):
            for (x, fx, nx, sx) in xs:
                for (y, fy, ny, sy) in ys:
                    if not nx and not ny: continue
                    for op in ops:
                        f, g = B[op]
                        yield f(x, y), (lambda g, fx, fy: lambda o: g(fx(o), fy(o)))(g, fx, fy), nx | ny, '(%s %s %s)' % (sx, op, sy)
        lev1 = list(combine(leaf, leaf))
        for nm, (f, g) in un.items():
            for (x, fx, nx, sx) in leaf[:3]: lev1.append((f(x), (lambda g, fx: lambda o: g(fx(o)))(g, fx), nx, '%s(%s)' % (nm, sx)))
        for e in lev1[seed::12]:
            for y in leaf:
                for op in ops:
                    f, g = B[op]
                    for (x, fx, nx, sx), (z, fz, nz, sz) in ((e, y), (y, e)):
                        if sx[0] == '(' and '<' in sx and op == '-' and (sz[0] == '(' and '<' in sz): continue
                        want, err = ref.attempt(lambda: g(fx('abc'), fz('abc')))
                        if err is not None: continue
                        compare(rec, '(%s %s %s)' % (sx, op, sz), f(x, z), lambda o: g(fx(o), fz(o)), nx | nz, 'expr')
            if depth > 2:
                for e2 in lev1[::5]:
                    for op in ops:
                        f, g = B[op]
                        want, err = ref.attempt(lambda: g(e[1]('abc'), e2[1]('abc')))
                        if err is not None: continue
                        compare(rec, '(%s %s %s)' % (e[3], op, e2[3]), f(e[0], e2[0]), lambda o: g(e[1](o), e2[1](o)), e[2] | e2[2], 'expr')
    elif t == 'select':
        l = case[1]
        for r in ARR:
            x, dx = operand(l, 1); y, dy = operand(r, 2, store='getvalues')
            u = x - y*2
            o = letters(u)
            full = np.broadcast_to(spread(dx, l, o) - spread(dy, r, o)*2, [SIZE[c] for c in o])
            sels = [[slice(None), slice(None, None, -1), [0], [1, 0], [0, 0, 1]] + ([slice(None, None, 2)] if SIZE[c] > 2 else []) for c in o]
            for s in itertools.product(*sels):
                e = full
                for i, q in enumerate(s): e = np.take(e, np.arange(full.shape[i])[q], axis=i)
                g = u.slice[tuple(s)].get()
                rec.step(); rec.state(e)
                rec.check(ref.same(g, e), lambda: ref.diffmsg('(%s - %s*2) sliced by %s' % (l, r, s), g, e), 'select')
    elif t == 'misc':
        import pygeode as pyg
        x, dx = operand('ab', 1)
        # arbitrary functions and reflected scalars
        compare(rec, 'map', x.map(lambda v, q: v - np.remainder(v, q), 4), lambda o: dx - np.remainder(dx, 4), 'ab', 'misc')
        for f in (lambda: x + [1, 2], lambda: x + 'q', lambda: x * None):
            r, err = ref.attempt(f)
            rec.step()
            rec.check(err is not None, lambda: 'an operand that is no variable or number was accepted: %r' % (r,), 'misc')
        for nm, op in (('+', operator.add), ('*', operator.mul)):
            a = op(x, 2); b = op(2, x)
            rec.step()
            rec.check(ref.same(a.get(), b.get()), 'reflected %s differs' % nm, 'misc')
        # units or other attributes common to both operands are kept
        y, dy = operand('b', 2)
        x.atts['q'] = 1; y.atts['q'] = 1; x.atts['r'] = 2; y.atts['r'] = 3
        s = x + y
        rec.step(); rec.check(s.atts.get('q') == 1 and 'r' not in s.atts, 'attributes of a sum: %s' % s.atts, 'misc')
