"""Catalogue of derived variables: one entry per operation (and per way of using it) on small inputs.

CAT: list of (label, builder).  builder(I) gets an Inputs object, makes its input variables through I.v(...) and
returns the derived variable, dataset, or tuple of variables.
"""
import numpy as np
from . import ref

def PB():
    from pygeode.progress import FakePBar
    return FakePBar()

class Inputs:
    def __init__(self, store, seed=0):
        self.store = store; self.vars = []; self.n = seed; self.extra = []
    def v(self, axes, dtype='d', nan=False, name=None, store=None, lo=None):
        self.n += 1
        shape = [len(a) for a in axes]
        d = ref.data(shape, 'd', salt=self.n) % 97
        d = d/8. - 3. if np.dtype(dtype).kind == 'f' else d
        d = d.astype(dtype)
        if lo is not None: d = np.abs(d) + lo
        if nan and d.size: d.reshape(-1)[::5] = np.nan
        v = ref.var(axes, d, store or self.store, name=name or 'v%d' % self.n, atts={'title': 't', 'n': self.n})
        v.units = 'K'
        self.vars.append((v, d.copy())); return v

def _ax():
    import pygeode as pyg
    class X: pass
    a = X()
    a.y = pyg.Lat([-40., -10., 20., 50.]); a.x = pyg.Lon([0., 100., 230.]); a.p = pyg.Pres([1000., 300., 100.]); a.y6 = pyg.Lat([-60., -35., -10., 20., 40., 70.])
    a.q = pyg.NamedAxis([2., 1., 4., 8., 3.], 'q'); a.one = pyg.Pres([500.])
    a.t = pyg.StandardTime(np.array([0., 1., 2., 3., 4., 5.]), units='days', startdate=dict(year=2000, month=2, day=27))
    # three years of four dates each, one missing
    import datetime
    D = [(y, m, d) for y in (2000, 2001, 2002) for m, d in ((1, 31), (3, 1), (3, 2), (12, 5)) if (y, m) != (2001, 12)]
    a.tc = pyg.StandardTime(units='days', startdate=dict(year=2000, month=1, day=1), year=[d[0] for d in D], month=[d[1] for d in D], day=[d[2] for d in D])
    a.th = pyg.ModelTime365(np.arange(7)*6., units='hours', startdate=dict(year=2001, month=2, day=28))
    a.ts = pyg.ModelTime365(np.arange(9)*45., units='days', startdate=dict(year=2001, month=1, day=15))
    a.tl = pyg.StandardTime(np.array([0., 1., 2., 366., 367., 368.]), units='days', startdate=dict(year=2000, month=2, day=28))
    a.yl = pyg.Yearless(np.arange(5)*1., units='days', startdate=dict(day=0))
    return a

def catalogue():
    import pygeode as pyg
    A = _ax()
    C = []
    def o(label, f): C.append((label, f))
    yx, xy = (A.y, A.x), (A.x, A.y)
    # element-wise
    for n, f in (('+', lambda a, b: a + b), ('-', lambda a, b: a - b), ('*', lambda a, b: a*b), ('/', lambda a, b: a/b), ('>', lambda a, b: a > b), ('maximum', pyg.maximum), ('arctan2', pyg.arctan2)):
        o('u%sw' % n, lambda I, f=f: f(I.v(yx), I.v(yx)))
        o('u%sw broadcast' % n, lambda I, f=f: f(I.v(yx), I.v((A.x, A.p))))
    o('transposed operand', lambda I: I.v(yx) - I.v(xy)*2)
    o('smaller grid', lambda I: I.v((A.y6,)) - I.v((pyg.Lat([40., -35., -60.]), A.x)))
    o('scalar ops', lambda I: (2 - I.v(yx))**2)
    o('three operands', lambda I: I.v((A.x,)) + I.v((A.y,)) * I.v((A.p,)))
    o('same twice', lambda I: (lambda v: v*v.transpose('lon') + v)(I.v(yx)))
    for n in ('sin', 'sqrt', 'sign', 'nan_to_num', 'absolute'): o(n, lambda I, n=n: getattr(I.v(yx), n)())
    o('clip', lambda I: pyg.clip(I.v(yx), 0., 4.))
    o('vsum', lambda I: pyg.vsum(I.v(yx), I.v((A.x,)), I.v((A.p, A.y))) if hasattr(pyg, 'vsum') else I.v(yx))
    # reductions
    for n in ('mean', 'sum', 'min', 'max', 'stdev', 'variance', 'argmin', 'argmax', 'nanmean', 'nansum', 'nanstdev', 'nanvariance', 'nanmin', 'nanmax'):
        for ax in ('lat', 'pres'):
            o('%s(%s)' % (n, ax), lambda I, n=n, ax=ax: getattr(I.v((A.x, A.y, A.p), nan=n.startswith('nan')), n)(ax))
        if not n.startswith('arg'):
            o('%s(lat,lon)' % n, lambda I, n=n: getattr(I.v((A.x, A.p, A.y)), n)('lat', 'lon'))
            o('%s all' % n, lambda I, n=n: getattr(I.v(yx), n)())
    for n in ('mean', 'sum', 'variance', 'nanmean', 'nansum'):
        o('%s weighted' % n, lambda I, n=n: getattr(I.v((A.x, A.y, A.q)), n)('lat', 'lon', weights=I.v(xy, lo=.5)))
        o('%s weights=True' % n, lambda I, n=n: getattr(I.v((A.y, A.q)), n)('lat', weights=True))
    o('m_lat', lambda I: I.v((A.y, A.x))(m_lat=(-20, 60)))
    o('mean - v', lambda I: (lambda v: v.mean('lon') - v)(I.v(yx)))
    # structure
    o('slice', lambda I: I.v((A.y6, A.x)).slice[1:, ::-1])
    o('slice list', lambda I: I.v((A.q, A.x)).slice[[3, 0, 4, 0], 1:])
    o('keyword', lambda I: I.v((A.y6, A.x))(lat=(-40, 50), lon=(50, 250)))
    o('l_ n_', lambda I: I.v((A.y6, A.x))(l_lat=[40., -35., 20.], n_lon=(90, 110)))
    o('transpose', lambda I: I.v((A.y, A.x, A.p)).transpose('pres', 'lat'))
    o('squeeze', lambda I: I.v((A.one, A.y, A.x)).squeeze())
    o('squeeze last', lambda I: I.v((A.y, A.x, A.one)).squeeze())
    o('extend', lambda I: I.v((A.x,)).extend(0, A.p))
    o('extend middle', lambda I: I.v(yx).extend(1, A.p, A.q))
    o('sorted', lambda I: I.v((A.q, A.x)).sorted(q=-1, lon=1))
    o('replace_axes', lambda I: I.v((A.q, A.x)).replace_axes(q=pyg.Pres([1., 2., 3., 4., 5.])))
    o('rename_axes', lambda I: I.v((A.q, A.x)).rename_axes(q='qq'))
    o('rename', lambda I: I.v((A.q, A.x)).rename('new'))
    o('fill', lambda I: I.v((A.q, A.x), nan=True).fill(-5.))
    o('unfill', lambda I: I.v((A.q, A.x), dtype='int32').unfill(3))
    o('as_type', lambda I: I.v(yx).as_type('float32'))
    o('load', lambda I: I.v(yx).load())
    o('rotatelon', lambda I: __import__('pygeode.axis', fromlist=['x']).rotatelon(I.v((A.y, A.x)), 180.) if False else pyg.axis.rotatelon(I.v((A.y, pyg.Lon([0., 90., 180., 270.]))), -180.))
    o('rotatelon duplicate', lambda I: pyg.axis.rotatelon(I.v((pyg.Lon([0., 90., 180., 270.]), A.y)), 0., duplicate=True))
    # concat, ensembles
    o('concat', lambda I: pyg.concatenate(I.v((A.t.slice[:2], A.x)), I.v((A.t.slice[2:3], A.x)), I.v((A.t.slice[3:], A.x))))
    o('concat inner', lambda I: pyg.concatenate(I.v((A.x, A.t.slice[3:])), I.v((A.x, A.t.slice[:3]))))
    o('concat repeated', lambda I: pyg.concatenate(I.v((A.t.slice[:3], A.x)), I.v((A.t.slice[1:4], A.x))))
    o('ensemble', lambda I: pyg.ensemble(I.v(yx, name='e'), I.v(yx, name='e'), I.v(yx, name='e')))
    o('ensemble mean', lambda I: pyg.ensemble(I.v(yx, name='e'), I.v(yx, name='e')).mean('ensemble'))
    # time statistics
    cl = ('dailymean', 'monthlymean', 'seasonalmean', 'yearlymean', 'diurnalmean', 'dailystdev', 'monthlystdev', 'yearlystdev', 'monthlycount', 'monthlynanmean', 'yearlynanstdev', 'climatology', 'climstdev', 'climcount', 'nanclimatology', 'climnanstdev')
    for n in cl:
        t = 'ts' if n.startswith('seasonal') else 'th' if n.startswith('diurnal') else 'tc'
        o(n, lambda I, n=n, t=t: getattr(I.v((getattr(A, t), A.x), nan='nan' in n), n)())
    for n in ('monthlymean', 'climatology', 'dailystdev'): o('%s inner' % n, lambda I, n=n: getattr(I.v((A.x, A.tc, A.one)), n)())
    o('climtrend', lambda I: I.v((A.x, A.tc)).climtrend())
    o('from_trend', lambda I: (lambda v: pyg.climat.from_trend(v.getaxis('time'), v.climtrend()))(I.v((A.tc, A.x))))
    o('anomaly', lambda I: (lambda v: v - v.climatology())(I.v((A.tc, A.x))))
    o('anomaly inner', lambda I: (lambda v: v - v.monthlymean().climatology())(I.v((A.x, A.tc))) if False else (lambda v: v.monthlymean() - v.monthlymean().climatology())(I.v((A.x, A.tc))))
    o('detrend', lambda I: (lambda v: v - pyg.climat.detrend(v) if hasattr(pyg.climat, 'detrend') else v)(I.v((A.tc, A.x))))
    # calculus
    for df in ('centre', 'left', 'right', '2'):
        o('deriv %s' % df, lambda I, df=df: I.v((A.x, A.y6)).deriv('lat', df=df))
        o('deriv %s first' % df, lambda I, df=df: I.v((A.q, A.x)).deriv('q', df=df))
        o('deriv %s dx' % df, lambda I, df=df: (lambda dx: I.v((A.y6, A.x, A.q)).deriv('lat', dx=dx, df=df))((A.y6*(A.x + 2.)).load()))
    for ty in ('trapz', 'rectl', 'rectr'):
        for od in (1, -1):
            o('integrate %s %d' % (ty, od), lambda I, ty=ty, od=od: I.v((A.x, A.y6)).integrate('lat', type=ty, order=od))
            o('integrate %s %d first v0' % (ty, od), lambda I, ty=ty, od=od: I.v((A.q, A.x)).integrate('q', type=ty, order=od, v0=I.v((A.x,))))
    o('integrate dx', lambda I: I.v((A.y6, A.x)).integrate('lat', dx=(A.y6*(A.x + 2.)).load(), v0=3.))
    for od in (1, -1): o('cumsum %d' % od, lambda I, od=od: I.v((A.x, A.q)).cumsum('q', order=od))
    for n in (1, 2, 3): o('diff %d' % n, lambda I, n=n: I.v((A.x, A.y6)).diff('lat', n))
    o('diff time', lambda I: I.v((A.t, A.x)).diff('time'))
    # smoothing
    for k in (3, 4, 5, [1., 2., 1.], [1., 3., 4., 2.], [1., 0., 0.]):
        for fft in (True, False): o('smooth %s %s' % (k, fft), lambda I, k=k, fft=fft: I.v((A.x, A.y6)).smooth('lat', k, fft=fft))
    o('smooth first', lambda I: I.v((A.y6, A.x, A.p)).smooth('lat', 5))
    for h in (1, 2): o('fft_smooth %d' % h, lambda I, h=h: I.v((A.x, A.y6)).fft_smooth('lat', h))
    o('fft_smooth complex', lambda I: (I.v((A.y6, A.x))*1j).fft_smooth('lat', 2))
    # interpolation
    for ty in ('linear', 'cspline'):
        o('interpolate %s' % ty, lambda I, ty=ty: I.v((A.y6, A.x)).interpolate('lat', pyg.Lat([-50., 0., 30., 80.]), interp_type=ty))
        o('interpolate %s keep' % ty, lambda I, ty=ty: I.v((A.x, A.y6, A.one)).interpolate('lat', pyg.Lat([60., 0., -45.]), interp_type=ty, transpose=False))
    o('interpolate inx', lambda I: I.v((A.q, A.x)).interpolate('q', pyg.Pres([3., 5., 7.]), inx=I.v((A.q, A.x), lo=.5).cumsum('q').load(), interp_type='linear'))
    o('interpolate outx', lambda I: I.v((A.y6, A.x)).interpolate('lat', A.p, outx=(pyg.log(A.p)*(A.x + 1.)).load(), interp_type='linear', d_below=0., d_above=0.))
    # samples
    o('composite', lambda I: I.v((A.t, A.x)).composite(i_time=[1, 4], evlen=3, evoff=1))
    o('composite inner', lambda I: I.v((A.x, A.t)).composite(i_time=[0, 3, 5], evlen=4, evoff=2))
    o('composite lists', lambda I: I.v((A.t, A.x)).composite(i_time=[1, 4, 5, 2], evlen=[2, 3, 2, 1], evoff=[1, 0, 2, 0]))
    o('composite lat', lambda I: I.v((A.y6, A.x)).composite(i_lat=[1, 3], evlen=2, evoff=0))
    o('flatten', lambda I: I.v((A.y, A.x)).flatten(1, pyg.NamedAxis(12, 'f')))
    o('flatten named', lambda I: I.v((A.p, A.q, A.x)).flatten(1, pyg.NamedAxis(15, 'f')))
    for lg in ([0, 1, 2], [-2, 0, 1], [3], [-1]):
        o('lag %s' % lg, lambda I, lg=lg: I.v((A.t, A.x)).lag('time', lg))
    o('lag inner', lambda I: I.v((A.x, A.t)).lag('time', [-1, 1]))
    o('lag reverse', lambda I: I.v((A.x, A.t)).lag('time', [0, 1, 2], reverse=True))
    o('splittime', lambda I: pyg.timeutils.splittimeaxis(I.v((A.tc, A.x))))
    o('splittime inner', lambda I: pyg.timeutils.splittimeaxis(I.v((A.x, A.tc))))
    o('jointime', lambda I: pyg.timeutils.jointimeaxes(pyg.timeutils.splittimeaxis(I.v((A.tc, A.x)))))
    o('jointime inner', lambda I: pyg.timeutils.jointimeaxes(pyg.timeutils.splittimeaxis(I.v((A.x, A.tc)))))
    o('removeleapyears', lambda I: pyg.timeutils.removeleapyears(I.v((A.tl, A.x))))
    # statistics
    def D(ds): return tuple(ds.vars)
    o('regress', lambda I: D(pyg.regress(I.v((A.tc,)), I.v((A.tc, A.x)), pbar=PB(), output='m,b,r2,p,sm,se')))
    o('regress lat', lambda I: D(pyg.regress(I.v((A.x, A.y6)), I.v((A.y6, A.x, A.p)), axes=['lat'], pbar=PB(), output='m,b,r2,p,sm,se')))
    o('correlate', lambda I: D(pyg.correlate(I.v((A.tc, A.x)), I.v((A.x, A.tc)), pbar=PB())))
    o('correlate lat', lambda I: D(pyg.correlate(I.v((A.y6, A.x)), I.v((A.p, A.y6)), pbar=PB())))
    o('multiple_regress', lambda I: D(pyg.multiple_regress([I.v((A.tc,)), I.v((A.tc,))], I.v((A.tc, A.x)), pbar=PB())))
    o('difference', lambda I: D(pyg.difference(I.v((A.tc, A.x)), I.v((A.tc, A.x)), axes=['time'], pbar=PB())))
    o('paired_difference', lambda I: D(pyg.paired_difference(I.v((A.tc, A.x)), I.v((A.tc, A.x)), axes=['time'], pbar=PB())))
    o('isnonzero', lambda I: D(pyg.isnonzero(I.v((A.tc, A.x)), axes=['time'], pbar=PB())))
    # axes with repeated coordinates
    A.d = pyg.NamedAxis([2., 1., 2., 2.], 'q')
    o('repeated: mean', lambda I: I.v((A.d, A.x)).mean('lon'))
    o('repeated: nanmean', lambda I: I.v((A.x, A.d)).nanmean('lon'))
    o('repeated: max', lambda I: I.v((A.x, A.d, A.p)).max('lon', 'pres'))
    o('repeated: variance', lambda I: I.v((A.d, A.x)).variance('lon'))
    o('repeated: argmax', lambda I: I.v((A.d, A.x)).argmax('lon'))
    o('repeated: mean over it', lambda I: I.v((A.d, A.x)).mean('q'))
    o('repeated: scalar', lambda I: 2*I.v((A.d, A.x)) + 1)
    o('repeated: broadcast', lambda I: I.v((A.d, A.x)) + I.v((A.x,)))
    o('repeated: transpose', lambda I: I.v((A.d, A.x)).transpose('lon'))
    o('repeated: squeeze', lambda I: I.v((A.d, A.one)).squeeze())
    o('repeated: extend', lambda I: I.v((A.d,)).extend(0, A.x))
    o('repeated: sorted', lambda I: I.v((A.d, A.x)).sorted('q'))
    o('repeated: slice', lambda I: I.v((A.d, A.x)).slice[1:])
    o('repeated: rename', lambda I: I.v((A.d, A.x)).rename_axes(q='r'))
    o('repeated: deriv', lambda I: I.v((A.d, A.x)).deriv('lon'))
    o('repeated: diff', lambda I: I.v((A.d, A.x)).diff('lon'))
    o('repeated: diff along', lambda I: I.v((A.d, A.x)).diff('q'))
    o('repeated: integrate', lambda I: I.v((A.d, A.x)).integrate('lon'))
    o('repeated: cumsum along', lambda I: I.v((A.d, A.x)).cumsum('q'))
    o('repeated: smooth', lambda I: I.v((A.d, A.x)).smooth('lon', 3))
    o('repeated: smooth along', lambda I: I.v((A.x, A.d)).smooth('q', 3))
    o('repeated: fft_smooth', lambda I: I.v((A.d, A.x)).fft_smooth('q', 1))
    o('repeated: interpolate', lambda I: I.v((A.d, A.x)).interpolate('lon', pyg.Lon([20., 200.]), interp_type='linear'))
    o('repeated: climatology', lambda I: I.v((A.tc, A.d)).climatology())
    o('repeated: fill', lambda I: I.v((A.x, A.d), nan=True).fill(2.))
    o('repeated: composite', lambda I: I.v((A.d, A.t)).composite(i_time=[0, 3, 5], evlen=4, evoff=2))
    o('repeated: lag', lambda I: I.v((A.t, A.d)).lag('time', [0, 1]))
    o('repeated: flatten', lambda I: I.v((A.p, A.d, A.x)).flatten(1, pyg.NamedAxis(12, 'f')))
    o('repeated: ensemble', lambda I: pyg.ensemble(I.v((A.d, A.x), name='e'), I.v((A.d, A.x), name='e')))
    o('repeated: stdev of concat', lambda I: pyg.concatenate(I.v((A.t.slice[:3], A.x)), I.v((A.t.slice[1:4], A.x))).stdev('lon'))
    o('repeated: concat minus mean', lambda I: (lambda v: v - v.mean('lon'))(pyg.concatenate(I.v((A.t.slice[:3], A.x)), I.v((A.t.slice[1:4], A.x)))))
    o('repeated: monthly climatology', lambda I: pyg.concatenate(I.v((A.tc.slice[:6], A.x)), I.v((A.tc.slice[4:], A.x))).monthlymean())
    # several operations
    o('zonal anomaly gradient', lambda I: (lambda v: (v - v.mean('lon')).deriv('lat'))(I.v((A.y6, A.x))))
    o('smooth of slice', lambda I: I.v((A.y6, A.x)).slice[::-1].smooth('lat', 3))
    o('interpolated climatology', lambda I: I.v((A.tc, A.y)).climatology().interpolate('lat', pyg.Lat([0., 10.]), interp_type='linear'))
    o('transpose reduce', lambda I: (I.v((A.x, A.y)).transpose('lat') * 2).extend(1, A.p).mean('lon'))
    o('time mean of concat', lambda I: pyg.concatenate(I.v((A.t.slice[:2], A.x)), I.v((A.t.slice[2:], A.x))).mean('time'))
    return C
