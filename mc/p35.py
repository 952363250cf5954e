"""P35: several threads reading at the same time get the values a single thread gets."""
import os, sys
import numpy as np
from . import ref, sched
sched.install()
from . import p18

BOUND = {'quick': "two threads, 15 scenes (parts of one variable, variables of one file, two files, one file opened twice, derived variables, pieces, opening, closing, multi-file, xarray chunks, saving) x both netCDF drivers x netCDF-3 and netCDF-4; every schedule with <= 1 preemption at lock operations, before/in/after each netCDF call and (small scenes) each line of the I/O modules; <= 2 preemptions for same/vars/files; <= 1 preemption at each line of the whole package for the small scenes", 'thorough': "the same with <= 2 preemptions for all small scenes, line points for the large scenes, and <= 3 preemptions at library calls and locks for same/vars/files"}
TECH = 'stateless exploration of the thread schedules of the real code under a controlled scheduler (preemption-bounded)'
HANG = 600

IO = ('netcdf.py', 'netcdf4.py', 'multifile.py', 'ext_xarray.py')
def io_files(p): return os.path.basename(p) in IO and os.sep + 'pygeode' + os.sep in p
def all_files(p): return os.sep + 'pygeode' + os.sep in p and not p.endswith('progress.py')

class Scene:
    """fresh objects for one execution: the functions of the threads, and what each must return"""
    def __init__(self, fns, want, keep=None): self.fns = fns; self.want = want; self.keep = keep
    def close(self): self.fns = self.want = self.keep = None

def lat(n=4): import pygeode as pyg; return pyg.Lat(np.arange(n)*10. - 20)
def lon(n=3): import pygeode as pyg; return pyg.Lon(np.arange(n)*30.)
D = np.arange(12.).reshape(4, 3) + .5
E = D[:, 0]*100

def files(drv, ver):
    """two files, written once per case"""
    import pygeode as pyg
    out = []
    for k in range(2):
        v = ref.var((lat(), lon()), D + 1000*k, name='v'); w = ref.var((lat(),), E + 7*k, name='w')
        out.append(p18.save('p3' if ver == 3 else 'p4', pyg.Dataset([v, w])))
    return out
def daily(ver):
    import pygeode as pyg
    fs = []
    base = p18.path()
    for k in (1, 2):
        t = pyg.StandardTime(np.array([0., .5]) + k - 1, units='days', startdate=dict(year=2000, month=1, day=1))
        p = base.replace('.nc', '') + '_200001%02d.nc' % k
        p18.drv('p').save(p, pyg.Dataset([ref.var((t, lon()), D[:2]*10**k, name='v')]), version=ver); fs.append(p)
    return fs

SC = {}
def scene(name):
    def f(fn): SC[name] = fn; return fn
    return f
@scene('same')       # two parts of one variable
def _(o, fs):
    v = o(fs[0]).v; return Scene([lambda: v[0:2, 0:2], lambda: v[1:4, 1:3]], [D[0:2, 0:2], D[1:4, 1:3]])
@scene('twice')      # each thread reads twice
def _(o, fs):
    v = o(fs[0]).v; return Scene([lambda: np.stack([v[0, :], v[2, :]]), lambda: np.stack([v[1, :], v[3, :]])], [D[[0, 2]], D[[1, 3]]])
@scene('vars')       # two variables of one file
def _(o, fs):
    d = o(fs[0]); return Scene([lambda: d.v.get(), lambda: d.w.get()], [D, E])
@scene('files')      # variables of two files
def _(o, fs):
    a, b = o(fs[0]), o(fs[1]); return Scene([lambda: a.v.get(), lambda: b.v.get()], [D, D + 1000])
@scene('reopened')   # one file, opened twice
def _(o, fs):
    a, b = o(fs[0]), o(fs[0]); return Scene([lambda: a.v[1:, :], lambda: b.v[:2, :]], [D[1:], D[:2]])
@scene('derived')    # derived variables of one file
def _(o, fs):
    d = o(fs[0]); s = d.v + d.w; m = d.v.mean('lon'); return Scene([lambda: s.get(), lambda: m.get()], [D + E[:, None], D.mean(1)])
@scene('gather')     # non-contiguous: several pieces
def _(o, fs):
    v = o(fs[0]).v; return Scene([lambda: v[[0, 3], [0, 2]], lambda: v[[1, 3], [0, 2]]], [D[np.ix_([0, 3], [0, 2])], D[np.ix_([1, 3], [0, 2])]])
@scene('open')       # a file is opened while another is read
def _(o, fs):
    v = o(fs[0]).v; return Scene([lambda: v.get(), lambda: o(fs[1]).w.get()], [D, E + 7])
@scene('opens')      # two files are opened
def _(o, fs): return Scene([lambda: o(fs[0]).v.get(), lambda: o(fs[1]).v.get()], [D, D + 1000])
@scene('drop')       # a dataset is given up while another is read
def _(o, fs):
    import gc
    v = o(fs[0]).v; box = [o(fs[1])]
    def drop():
        if len(box): box[0].w.get()
        del box[:]; gc.collect(); return np.zeros(1)
    return Scene([lambda: v.get(), drop], [D, np.zeros(1)], box)
@scene('multi')      # a variable over several files
def _(o, fs, daily):
    import pygeode as pyg
    v = pyg.open_multi(daily, opener=o, pattern='$Y$m$d\\.nc').v
    x = np.concatenate([D[:2]*10, D[:2]*100]); return Scene([lambda: v[1:3, :], lambda: v[2:4, 0:2]], [x[1:3], x[2:4, :2]])
@scene('xarray')     # chunks of the converted variable
def _(o, fs):
    with ref.chunks(6): X = p21to(o(fs[0]))
    f = lambda sl: X.v[sl].compute(scheduler='synchronous').values
    return Scene([lambda: f((slice(0, 2),)), lambda: f((slice(2, 4),))], [D[:2], D[2:]])
@scene('save')       # a dataset is saved while another is read
def _(o, fs):
    d, e = o(fs[0]), o(fs[1]); drv, ver = o.how; p = p18.path()
    def sv(): p18.save(drv + str(ver), (d.v*2).rename('v'), out=p); return o(p).v.get()
    return Scene([sv, lambda: e.v.get()], [D*2, D + 1000])
@scene('save1')      # ... the same file
def _(o, fs):
    d = o(fs[0]); drv, ver = o.how; p = p18.path()
    def sv(): p18.save(drv + str(ver), (d.v*2).rename('v'), out=p); return o(p).v.get()
    return Scene([sv, lambda: d.w.get()], [D*2, E])
@scene('saves')
def _(o, fs):
    d = o(fs[0]); drv, ver = o.how; P = [p18.path() for i in range(2)]
    def sv(i):
        p18.save(drv + str(ver), (d.v*(i + 2)).rename('v'), out=P[i]); return o(P[i]).v.get()
    return Scene([lambda: sv(0), lambda: sv(1)], [D*2, D*3])

def p21to(ds):
    from pygeode import ext_xarray
    return ext_xarray.to_xarray(ds)
class Opener:
    def __init__(self, drv, ver): self.how = (drv, ver)
    def __call__(self, p): return p18.opn(self.how[0], p)

SMALL = ('same', 'twice', 'vars', 'files', 'reopened', 'derived', 'gather', 'xarray', 'drop')
def cases(tier):
    """[kind, scene, driver, netCDF version, preemptions, scheduling points at lines of the I/O modules? (or of all modules), part, parts]"""
    out = []
    q = tier == 'quick'
    for k in SC:
        for drv in ('c', 'p'):
            for ver in (3, 4):
                if k in SMALL:
                    out.append(['io', k, drv, ver, 1, True, 0, 1])
                    n = 6 if drv == 'c' else 1
                    if k in ('same', 'vars', 'files') if q else k != 'drop':
                        for i in range(n): out.append(['io', k, drv, ver, 2, ver == 3 or not q, i, n])
                    if drv == 'c' and ver == 3:
                        n = 4
                        for i in range(n): out.append(['io', k, drv, ver, 1, 'all', i, n])
                    if not q and k in ('same', 'vars', 'files'):
                        for i in range(8): out.append(['io', k, drv, ver, 3, False, i, 8])
                else:
                    n = 3
                    for i in range(n): out.append(['io', k, drv, ver, 1, not q, i, n])
    return out

def run(case, rec):
    import warnings; warnings.simplefilter('ignore')
    # (HDF5 prints diagnostics to the terminal in threads other than the first)
    old = os.dup(2); null = os.open(os.devnull, os.O_WRONLY); os.dup2(null, 2)
    try: globals()[case[0]](case, rec)
    finally: os.dup2(old, 2); os.close(old); os.close(null); p18.clean()

def io(case, rec):
    _, k, drv, ver, bound, lines, part, parts = case
    o = Opener(drv, ver); fs = files(drv, ver); extra = [daily(ver)] if k == 'multi' else []
    def mk(): return SC[k](o, fs, *extra)
    mk.names = (0, 1)
    fds = []
    def judge(ex, st, pre):
        rec.step()
        what = '%s, driver %s, netCDF-%d: threads switch at %s' % (k, drv, ver, ex.trail)
        for m in ex.bad: rec.check(False, lambda: '%s: %s' % (what, m), '%s:%s%d' % (k, drv, ver))
        for t, (r, w) in enumerate(zip(ex.res, st.want)):
            ok = r is not None and r[0] == 'ok' and ref.same(np.asarray(r[1]), np.asarray(w), 0, 0)
            rec.check(ok, lambda: '%s: thread %d got %r, expected %s' % (what, t, r, w), '%s:%s%d' % (k, drv, ver))
            if not ok: rec.bad = True
        return None
    n, pts = sched.explore(mk, bound, (all_files if lines == 'all' else io_files) if lines else None, judge, part=(part, parts))
    rec.state(k, drv, ver, n)
