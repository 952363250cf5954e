"""Shared pieces of the reference side: axis catalogue, variable builders, comparisons.

The reference for every check is written against numpy/datetime/fractions only; nothing here calls an
operation of pygeode other than constructors.
"""
import itertools
import numpy as np

# ---- axis catalogue -------------------------------------------------------------------------------
# name -> function(n) giving n distinct coordinate values
VALS = {
    'inc':   lambda n: np.arange(n)*10. + 5.,
    'dec':   lambda n: 1000. - 150.*np.arange(n),
    'uns':   lambda n: np.array([3., -1., 7., 0., 5., -4.])[:n],
    'neg':   lambda n: -80. + 37.5*np.arange(n),
    'tiny':  lambda n: 1. + 1e-3*np.arange(n),
    'wide':  lambda n: 10.**(np.arange(n)*2 - 3),
    'int':   lambda n: np.arange(n)*2 + 1,
    'f32':   lambda n: (np.arange(n)*.1 + .3).astype('float32'),
    'dup':   lambda n: np.array([2., 1., 2., 2., 1., 0.])[:n],
    'zero':  lambda n: np.arange(n)*1. ,
}

def axis(kind, n, vals=None, name=None, **kw):
    """Build a pygeode axis of a kind with n distinct coordinates."""
    import pygeode as pyg
    if kind == 'x':     a = pyg.XAxis(VALS[vals or 'inc'](n), **kw)
    elif kind == 'y':   a = pyg.YAxis(VALS[vals or 'inc'](n), **kw)
    elif kind == 'z':   a = pyg.ZAxis(VALS[vals or 'inc'](n), **kw)
    elif kind == 'lat': a = pyg.Lat(VALS[vals or 'neg'](n), **kw)
    elif kind == 'lon': a = pyg.Lon(VALS[vals or 'inc'](n), **kw)
    elif kind == 'pres': a = pyg.Pres(VALS[vals or 'dec'](n), **kw)
    elif kind == 'hyb': a = pyg.Hybrid(VALS[vals or 'dec'](n), A=np.arange(n)*3.+1, B=1./(1+np.arange(n)), **kw)
    elif kind == 'idx': a = pyg.Index(n)
    elif kind == 'named': a = pyg.NamedAxis(VALS[vals or 'inc'](n), name or 'foo', **kw)
    elif kind == 'foo': a = pyg.NamedAxis(VALS[vals or 'inc'](n), 'foo', **kw)
    elif kind == 'bar': a = pyg.NamedAxis(VALS[vals or 'inc'](n), 'bar', **kw)
    elif kind == 'dummy': a = pyg.axis.DummyAxis(np.arange(n), name or 'dum')
    elif kind == 'axis': a = pyg.Axis(VALS[vals or 'inc'](n), name=name or 'ax', **kw)
    elif kind == 'station': a = pyg.axis.Station(station=np.array(['aa', 'b', 'ccc', 'dd', 'e', 'ff'])[:n], **kw)
    elif kind == 'std': a = pyg.StandardTime(np.arange(n)*20., units='days', startdate=dict(year=2000, month=1, day=15))
    elif kind == 'm365': a = pyg.ModelTime365(np.arange(n)*20., units='days', startdate=dict(year=2001, month=1, day=15))
    elif kind == 'm360': a = pyg.ModelTime360(np.arange(n)*20., units='days', startdate=dict(year=2001, month=1, day=15))
    elif kind == 'yearless': a = pyg.Yearless(np.arange(n)*.5, units='days', startdate=dict(hour=0))
    else: raise KeyError(kind)
    if name is not None and a.name != name: a.name = name
    return a

def data(shape, dtype='d', salt=0):
    """Distinct, exactly representable values, so that any misplacement is visible and sums are exact."""
    n = int(np.prod(shape, dtype=int))
    a = (np.arange(n, dtype='int64')*7 + 3 + salt*1000)
    a = (a * a) % 10007 if n < 5000 else a
    return a.reshape(shape).astype(dtype)

_classes = {}
def _cls():
    if _classes: return _classes
    from pygeode.var import Var
    class GetviewVar(Var):
        def __init__(self, axes, d, **kw):
            Var.__init__(self, axes, dtype=d.dtype, **kw); self._d = d
        def getview(self, view, pbar):
            a = self._d
            for i, ind in enumerate(view.integer_indices): a = np.take(a, ind, axis=i)
            pbar.update(100)
            return a
    class GetvaluesVar(Var):
        def __init__(self, axes, d, **kw):
            Var.__init__(self, axes, dtype=d.dtype, **kw); self._d = d
        def getvalues(self, start, count):
            assert all(c > 0 and s >= 0 and s+c <= n for s, c, n in zip(start, count, self._d.shape)), (start, count)
            return self._d[tuple(slice(s, s+c) for s, c in zip(start, count))].copy()
    _classes.update(getview=GetviewVar, getvalues=GetvaluesVar)
    return _classes

def var(axes, d, store='mem', name='v', **kw):
    """A variable holding `d`: in memory, or served lazily through one of the two data-access protocols."""
    if store == 'mem':
        from pygeode.var import Var
        return Var(axes, values=np.array(d), name=name, **kw)
    return _cls()[store](axes, np.array(d), name=name, **kw)

STORES = ('mem', 'getview', 'getvalues')

# ---- comparison -----------------------------------------------------------------------------------
def same(a, b, rtol=1e-9, atol=1e-9, dtype=False):
    """Equal shape and (to rounding) equal values, with equal missing values."""
    a = np.asarray(a); b = np.asarray(b)
    if a.shape != b.shape: return False
    if dtype and a.dtype != b.dtype: return False
    if a.size == 0: return True
    if a.dtype.kind in 'OSU' or b.dtype.kind in 'OSU': return a.tolist() == b.tolist()
    if rtol == 0 and atol == 0:
        return bool(np.all((a == b) | ((a != a) & (b != b))))
    with np.errstate(all='ignore'):
        return bool(np.allclose(a, b, rtol=rtol, atol=atol, equal_nan=True))

def diffmsg(what, got, want):
    got = np.asarray(got); want = np.asarray(want)
    return '%s: got %s%s %s, expected %s%s %s' % (what, got.dtype, got.shape, np.array2string(got, threshold=40, max_line_width=200)[:500],
                                                  want.dtype, want.shape, np.array2string(want, threshold=40, max_line_width=200)[:500])

def tolst(ix): return [int(i) for i in ix]

def subsets(seq, lo=0, hi=None):
    hi = len(seq) if hi is None else hi
    for r in range(lo, hi+1):
        yield from itertools.combinations(seq, r)

class chunks:
    """Run with a given memory limit (elements per chunk)."""
    def __init__(self, n): self.n = n
    def __enter__(self):
        import pygeode
        self.old = pygeode.MAX_ARRAY_SIZE
        if self.n: pygeode.MAX_ARRAY_SIZE = self.n
    def __exit__(self, *a):
        import pygeode
        pygeode.MAX_ARRAY_SIZE = self.old

def attempt(f):
    """(value, None) or (None, exception)"""
    try: return f(), None
    except Exception as e: return None, e

def tmpdir(prefix):
    """a fresh directory whose name has no digits (patterns for file names must not match in it)"""
    import os, tempfile
    while True:
        p = os.path.join(tempfile.gettempdir(), prefix + '-' + ''.join(chr(97 + b % 26) for b in os.urandom(12)))
        try: os.mkdir(p, 0o700); return p
        except FileExistsError: pass
