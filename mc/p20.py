"""P20: a multi-file dataset equals the concatenation of its files."""
import contextlib, io, itertools, os, shutil, tempfile
import numpy as np
from . import ref, cal as C

BOUND = {
 'quick': 'open_multi: 3 calendars, 17 or 18 ways to divide a series into files (minutes to years per file, 1 to 31 times each, incomplete first or last file, offsets, gaps, names in and out of order of time), 6 layouts, 5 conventions for units and reference dates, 3 dtypes, 5 ways to list the files, dates by pattern, '
          'regular expression or function; every slice, pair and stride of the times (a fixed selection above 7 times), the files opened for each; every subset of the inner files unreadable, without the variable, without their times or missing, with every contiguous selection; check_multi for 5 kinds of damage; files without a time axis; '
          'variables on two time axes; openall: every distribution of 5 times among 1 or 2 files and a sixth to half of those among 3, in every order, sorted and not; files divided along other axes; netCDF files with both interfaces',
 'thorough': 'the same with every layout, convention and dtype for each division, every selection of up to 16 times, and every distribution of 6 times among 1 to 3 files in either order'}
HANG = 300
F = ('year', 'month', 'day', 'hour', 'minute', 'second')
D = 86400

# ---- the store: files are empty, what they hold is kept here ------------------------------------------
class Store:
    def __init__(self):
        self.dir = ref.tmpdir('multi'); self.build = {}; self.opened = []
    def put(self, name, build):
        p = os.path.join(self.dir, name)
        open(p, 'w').close(); self.build[p] = build
        return p
    def __call__(self, p, **kw):
        self.opened.append(os.path.basename(p))
        return self.build[p]()
    def close(self): shutil.rmtree(self.dir, ignore_errors=True)

def num(sec, n, salt=0):
    """the value at a time (seconds) and position n: the same in whatever file it is"""
    return ((np.asarray(sec, 'int64')[:, None]//60*7 + np.arange(n)[None, :]*13 + salt*5) % 9973).astype(float) + .5

OTH = {'lat': [10., 20., 30.], 'lon': [0., 180.], 'pres': [500.]}
LAYS = [('time',), ('time', 'lat'), ('lat', 'time'), ('lat', 'time', 'lon'), ('time', 'pres', 'lat'), ('lon', 'pres', 'time')]

def oaxis(k):
    import pygeode as pyg
    return {'lat': pyg.Lat, 'lon': pyg.Lon, 'pres': pyg.Pres}[k](OTH[k])

def field(secs, lay, salt=0):
    n = int(np.prod([len(OTH[k]) for k in lay if k != 'time']))
    x = num(secs, n, salt).reshape([len(secs)] + [len(OTH[k]) for k in lay if k != 'time'])
    return np.moveaxis(x, 0, lay.index('time'))

def taxis(cal, secs, units, start, name=None, how='values', atts={}):
    """a time axis with these dates (seconds since 2000-01-01)"""
    T = C.cls(cal)
    dates = [C.date(cal, s) for s in secs]
    kw = dict(name=name) if name else {}
    if how == 'fields': return T(units=units, atts=dict(atts), **dict({f: np.array([d[i] for d in dates]) for i, f in enumerate(F)}, **kw))
    ref0 = C.seconds(cal, start)
    return T(np.array([(s - ref0)/C.UNIT[units] for s in secs]), units=units, startdate=dict(zip(F, start)), atts=dict(atts), **kw)

def dates_of(t): return [tuple(int(t.auxarrays[f][i]) for f in F) for i in range(len(t))]

def dset(cal, secs, lay, units, start, dt='float64', extra=True, n=0):
    import pygeode as pyg
    t = taxis(cal, secs, units, start)
    axs = [t if k == 'time' else oaxis(k) for k in lay]
    v = ref.var(axs, field(secs, lay).astype(dt), 'getview', name='v', atts=dict(units='K', note='abc'))
    vs = [v]
    if extra:
        vs.append(ref.var([t], field(secs, ('time',), 1), 'getview', name='u'))
    return pyg.Dataset(vs, atts=dict(title='abc', file=n))

# ---- plans for open_multi ----------------------------------------------------------------------------
def months(cal, y, m, n): return [C.seconds(cal, (y, m+i, 1)) for i in range(n+1)]

def PLANS(cal):
    """name: (pattern, starts of the files + the end, seconds of every file)"""
    p = {}
    def reg(name, pat, st, step, off=0, cut=None, first=0):
        t = [list(range(a+off, b, step)) for a, b in zip(st[:-1], st[1:])]
        if cut is not None: t[-1] = t[-1][:cut]
        if first: t[0] = t[0][first:]
        p[name] = (pat, st[:-1], t)
    base = C.seconds(cal, (2000, 2, 28))
    days = [base + i*D for i in range(5)]
    reg('day6h', 'v_$Y$m$d.nc', days, 6*3600)
    reg('day6hlast1', 'v_$Y$m$d.nc', days, 6*3600, cut=1)
    reg('day6hlast3', 'v_$Y-$m-$d.nc', days[:3], 6*3600, cut=3)
    reg('day6hfirst1', 'v_$Y$m$d.nc', days, 6*3600, first=3)
    reg('day6hfirst2', 'v_$d_$m_$Y.nc', days, 6*3600, first=2)
    reg('day8hoff', 'v_$d-$m-$Y.nc', days[:4], 8*3600, 3600)
    reg('day1', '$Y$m$d', days, D)
    reg('day1off', '$d$m$Y', days, D, 12*3600)
    reg('hour15', 'v$Y$m$d$H.nc', [base + 22*3600 + i*3600 for i in range(5)], 900)
    reg('min', 'v$Y$m$dT$H$M.nc', [base + 23*3600 + 30*60 + i*600 for i in range(6)], 600)
    reg('min5', 'v$Y$m$dT$H$M.nc', [base + 23*3600 + 30*60 + i*600 for i in range(6)], 300)
    reg('two', 'v$Y$m$d.nc', days[:3], 12*3600)
    mo = months(cal, 1999, 11, 5)
    reg('month1d', 'v_$Y$m.nc', mo, D) if cal == 'std' else reg('month1d', 'v_$Y$m.nc', months(cal, 2001, 1, 3), D)
    p['monthmid'] = ('v_$m_$Y.nc', mo[:-1], [[a + 14*D] for a in mo[:-1]])
    p['month'] = ('v_$Y$m', mo[:-1], [[a] for a in mo[:-1]])
    p['gaps'] = ('v_$Y$m$d.nc', [base, base + 3*D, base + 4*D, base + 40*D], [[a] for a in (base, base + 3*D, base + 4*D, base + 40*D)])
    yr = [C.seconds(cal, (y, 1, 1)) for y in (1999, 2000, 2001, 2002)]
    if cal != 'std': reg('year', 'v_$Y.nc', yr, 5*D)
    return p

def fname(pat, cal, sec):
    y, m, d, h, mi, s = C.date(cal, sec)
    for k, x in (('$Y', '%04d' % y), ('$m', '%02d' % m), ('$d', '%02d' % d), ('$H', '%02d' % h), ('$M', '%02d' % mi)): pat = pat.replace(k, x)
    return pat

UM = {'days': ('days', 0), 'hours': ('hours', 0), 'own': ('days', 1), 'ownh': ('hours', 1), 'min': ('minutes', 0)}

def store(cal, plan, lay, um, dt='float64', extra=True, edit=None):
    pat, st, times = PLANS(cal)[plan]
    s = Store(); paths = []
    u, own = UM[um]
    for i, (a, t) in enumerate(zip(st, times)):
        start = C.date(cal, a if own else st[0])
        b = lambda t=t, start=start, i=i: dset(cal, t, lay, u, start, dt, extra, i)
        if edit: b = edit(i, b)
        paths.append(s.put(fname(pat, cal, a), b))
    return s, paths, pat, st, times

def cases(tier):
    out = []
    for cal in ('std', 'm365', 'm360'):
        for plan in PLANS(cal):
            for n in range(len(LAYS)): out.append(['multi', cal, plan, n, tier])
            out += [['bad', cal, plan], ['check', cal, plan]]
        out += [['notime', cal], ['mixed', cal]]
        for n in range(len(LAYS)):
            for k in (1, 2, 3): out.append(['all', cal, n, k, tier])
        for n in range(len(LAYS)): out.append(['alldup', cal, n])
    for w in ('c3', 'c4', 'p3', 'p4'):
        for cal in ('std', 'm365', 'm360'): out.append(['real', w, cal, tier])
    out += [['one'], ['misfit']]
    return out

def run(case, rec):
    import warnings; warnings.simplefilter('ignore')
    from . import p18
    try:
        with np.errstate(all='ignore'): globals()[case[0] if case[0] != 'all' else 'openall'](case, rec)
    finally: p18.clean()

def tsel(n, tier):
    """selections along the time axis"""
    out = [slice(None)] + [i for i in range(n)] if n <= 12 else [slice(None), 0, 1, n//2, n-2, n-1]
    if n <= 7 or tier == 'thorough' and n <= 16:
        out += [slice(i, j) for i in range(n) for j in range(i+1, n+1)] + [slice(None, None, -1), slice(None, None, 2), slice(None, None, -3)]
        out += [list(c) for c in itertools.permutations(range(n), 2)]
    else: out += [slice(0, n//2), slice(n//3, None), slice(2, 3), slice(n//2-1, n//2+1), slice(None, None, -1), slice(None, None, 3), slice(n-1, None, -4), [0, n-1], [n-1, 0, n//2], [1, 1, 0], slice(n-2, None)]
    return out

def verify(rec, what, key, v, cal, secs, lay, tier='quick', dt='float64', salt=0, reads=True, order=True):
    """v holds the values of these times; secs in the order expected"""
    from pygeode.timeaxis import Time
    it = lay.index('time'); t = v.axes[it]
    if not rec.check([a.name for a in v.axes] == list(lay) and type(t).__name__ == C.cls(cal).__name__, lambda: '%s: axes %r' % (what, v.axes), key + ':axes'): return
    want = [C.date(cal, s) for s in secs]
    if not rec.check(dates_of(t) == want, lambda: '%s: dates %s, expected %s' % (what, dates_of(t), want), key + ':dates'): return
    e = field(secs, lay, salt).astype(dt)
    g, err = ref.attempt(lambda: v.get()); rec.step()
    rec.check(err is None and ref.same(g, e, 0, 0) and g.dtype == v.dtype == e.dtype, lambda: ref.diffmsg('%s: %r' % (what, err), g, e), key + ':values')
    rec.state(what, e)
    if not reads: return
    for s in tsel(len(secs), tier):
        for q in ([slice(None)]*len(lay), [[1, 0] if len(OTH[k]) > 1 else 0 for k in lay if k != 'time']):
            sl = list(q)[:len(lay)-1]; sl.insert(it, s)
            ex = e
            for i in range(e.ndim)[::-1]: ex = ex[(slice(None),)*i + (sl[i],)]
            g, err = ref.attempt(lambda: v[tuple(sl)]); rec.step()
            rec.check(err is None and ref.same(g, ex, 0, 0), lambda: ref.diffmsg('%s read at %s: %r' % (what, sl, err), g, ex), key + ':read')

def quiet(fn):
    o = io.StringIO()
    with contextlib.redirect_stdout(o): r = fn()
    return r, o.getvalue()

def orders(paths):
    yield 'sorted', paths
    yield 'reversed', paths[::-1]
    yield 'rotated', paths[2:] + paths[:2]
    yield 'glob', os.path.join(os.path.dirname(paths[0]), '*')
    yield 'globs', [os.path.join(os.path.dirname(paths[0]), '*' + os.path.basename(p)[-6:]) for p in paths] if len({os.path.basename(p)[-6:] for p in paths}) == len(paths) else tuple(paths)

def multi(case, rec):
    import pygeode as pyg
    _, cal, plan, n, tier = case
    lay = LAYS[n]
    for j, um in enumerate(UM):
        if tier == 'quick' and n and (j + n + len(plan)) % 3: continue      # every layout takes others
        for dt in ('float64', 'float32', 'int32') if um == 'days' and (n < 2 or tier == 'thorough') else ('float64',):
            s, paths, pat, st, times = store(cal, plan, lay, um, dt)
            try:
                secs = sum(times, [])
                for oname, order in orders(paths):
                    for how in ('pattern', 'file2date', 'regex'):
                        if how != 'pattern' and oname != 'sorted': continue
                        what = '%s %s %s, units %s, %s, %s, by %s' % (cal, plan, lay, um, dt, oname, how)
                        f2d = lambda f: dict(zip(F, C.date(cal, st[paths.index(f)])))
                        kw = {'pattern': dict(pattern=pat), 'file2date': dict(file2date=f2d), 'regex': dict(pattern=pat.replace('$Y', '(?P<year>[0-9]+)'))}[how]
                        del s.opened[:]
                        ds, err = ref.attempt(lambda: pyg.open_multi(order, opener=s, **kw)); rec.step()
                        if not rec.check(err is None, lambda: '%s: %r' % (what, err), 'multi:open'): continue
                        ends = {os.path.basename(paths[0]), os.path.basename(paths[-1])}
                        srt = os.path.basename(sorted(paths)[0])
                        rec.check(set(s.opened) <= ends | {srt}, lambda: '%s: files %s were opened' % (what, s.opened), 'multi:lazy')
                        if not rec.check([v.name for v in ds.vars] == ['v', 'u'] and ds.v.atts == dict(units='K', note='abc') and ds.atts == dict(title='abc'), lambda: '%s: %s %s %s' % (what, ds, ds.v.atts, ds.atts), 'multi:meta'): continue
                        verify(rec, what, 'multi', ds.v, cal, secs, lay, tier, dt, reads=oname == 'sorted' and (how == 'pattern') == (dt == 'float64') or tier == 'thorough')
                        verify(rec, what, 'multi', ds.u, cal, secs, ('time',), tier, salt=1, reads=oname == 'sorted')
                        # only the files that hold the times asked for are opened
                        it = lay.index('time')
                        for i in range(len(secs)) if len(secs) < 20 else range(0, len(secs), 13):
                            del s.opened[:]
                            _, err = ref.attempt(lambda: ds.v[(slice(None),)*it + (slice(i, i+1),)]); rec.step()
                            f = [k for k, t in enumerate(times) if secs[i] in t]
                            rec.check(set(s.opened) == {os.path.basename(paths[k]) for k in f}, lambda: '%s: reading time %d opened %s' % (what, i, s.opened), 'multi:lazy')
                        # by date
                        for i, j in ((0, len(secs)-1), (1, len(secs)//2)):
                            a, b = C.date(cal, secs[i]), C.date(cal, secs[j])
                            if i > j: continue
                            g, err = ref.attempt(lambda: ds.v(l_month=[a[1]]).get()); rec.step()
                            k = [x for x, q in enumerate(secs) if C.date(cal, q)[1] == a[1]]
                            e = np.take(field(secs, lay).astype(dt), k, axis=it)
                            rec.check(err is None and ref.same(g, e, 0, 0), lambda: ref.diffmsg('%s in month %d: %r' % (what, a[1], err), g, e), 'multi:month')
            finally: s.close()

def bad(case, rec):
    """files that can't be read, lack the variable or lack their times only matter if they're needed"""
    import pygeode as pyg
    _, cal, plan = case
    lay = ('lat', 'time')
    n = len(PLANS(cal)[plan][1])
    def broken(i, b): 
        def f(): raise IOError('broken file')
        return f
    def novar(i, b):
        def f():
            ds = b(); return pyg.Dataset([ds.u])
        return f
    def later(i, b):
        def f():
            t = [x + 100*365*D for x in PLANS(cal)[plan][2][i]]
            return dset(cal, t, lay, 'days', C.date(cal, PLANS(cal)[plan][1][0]))
        return f
    def short(i, b):
        def f():
            t = PLANS(cal)[plan][2][i][1:]
            return dset(cal, t, lay, 'days', C.date(cal, PLANS(cal)[plan][1][0]))
        return f
    def missing(i, b): return b
    for kind in (broken, novar, later, short, missing):
        for sub in [c for r in range(1, n-1) for c in itertools.combinations(range(1, n-1), r)]:
            if kind is short and any(len(PLANS(cal)[plan][2][i]) < 2 for i in sub): continue
            if kind is missing and max(len(t) for t in PLANS(cal)[plan][2]) == 1: continue
            s, paths, pat, st, times = store(cal, plan, lay, 'days', edit=lambda i, b: kind(i, b) if i in sub else b)
            try:
                what = '%s %s, files %s are %s' % (cal, plan, sub, kind.__name__)
                if kind is missing:
                    for i in sub: os.remove(paths[i])
                    paths = [p for i, p in enumerate(paths) if i not in sub]
                first = sorted(paths)[0]      # the first by name is opened to find the calendar
                if kind is broken and any(paths[i] == first for i in sub): continue
                ds, err = ref.attempt(lambda: pyg.open_multi(paths, pattern=pat, opener=s)); rec.step()
                if not rec.check(err is None, lambda: '%s: %r' % (what, err), 'bad:open'): continue
                secs = sum(times, []); e = field(secs, lay)
                if not rec.check(len(ds.v.time) == len(secs), lambda: '%s: %d times, expected %d' % (what, len(ds.v.time), len(secs)), 'bad:open'): continue
                ok = [not any(x in (times[i][:1] if kind is short else times[i]) for i in sub) for x in secs]
                m = len(secs)
                S = [[i] for i in range(0, m, 1 if m < 18 else 3)] + [list(range(i, j)) for i in range(m) for j in range(i+2, m+1) if m < 18 or (j-i) % 31 == 1 and i % 7 == 0] + [list(range(0, m, 2))]
                for c in S:
                    g, err = ref.attempt(lambda: ds.v[(slice(None), c)]); rec.step()
                    if all(ok[i] for i in c): rec.check(err is None and ref.same(g, e[:, c], 0, 0), lambda: ref.diffmsg('%s, read at %s: %r' % (what, c, err), g, e[:, c]), 'bad:good')
                    else: rec.check(err is not None, lambda: '%s, read at %s: %s' % (what, c, g), 'bad:bad')
                rec.state(what)
            finally: s.close()

def check(case, rec):
    """check_multi finds what is wrong with a set of files, and nothing else"""
    import pygeode as pyg
    from pygeode.formats.multifile import check_multi
    _, cal, plan = case
    pat, st, times = PLANS(cal)[plan]
    n = len(st); lay = ('time', 'lat')
    if plan in ('gaps', 'month', 'monthmid', 'year') : return          # not at uniform steps
    def same(i, b): return b
    def broken(i, b):
        def f(): raise IOError('broken file')
        return f
    def novar(i, b): return lambda: pyg.Dataset([b().u])
    def more(i, b):
        def f():
            ds = b(); return pyg.Dataset(list(ds.vars) + [ds.u.rename('q')])
        return f
    def short(i, b): return lambda: dset(cal, times[i][1:], lay, 'days', C.date(cal, st[0]))
    def unread(i, b):
        def f():
            ds = b()
            class V(pyg.Var):
                def getview(self, view, pbar): raise IOError('unreadable')
            return pyg.Dataset([V(ds.v.axes, name='v', dtype='float64'), ds.u])
        return f
    for um in UM:
        for kind in (same, broken, novar, more, short, unread):
            for i in range(n):
                if kind is same and i: continue
                if kind is not same and (um != 'days' or i in (0, n-1)): continue
                if kind is short and len(times[i]) < 2: continue
                s, paths, _, _, _ = store(cal, plan, lay, um, edit=lambda j, b: kind(j, b) if j == i else b)
                try:
                    if kind is broken and paths[i] == sorted(paths)[0]: continue
                    r, err = ref.attempt(lambda: quiet(lambda: check_multi(paths, pattern=pat, opener=s))); rec.step()
                    what = '%s %s units %s, file %d %s' % (cal, plan, um, i, kind.__name__)
                    if not rec.check(err is None, lambda: '%s: %r' % (what, err), 'check'): continue
                    good = 'without any errors' in r[1]
                    rec.check(good == (kind is same), lambda: '%s: check_multi prints %s' % (what, r[1]), 'check:' + kind.__name__)
                    if kind is not same: rec.check(os.path.basename(paths[i]) in r[1], lambda: '%s: check_multi does not name the file: %s' % (what, r[1]), 'check:' + kind.__name__)
                    rec.state(what)
                finally: s.close()

def notime(case, rec):
    """files without a time axis, or with one that is not recognized: one time each, from the name"""
    import pygeode as pyg
    cal = 'std' if 0 else case[1]
    base = C.seconds(cal, (2000, 2, 27))
    for days in ([0, 1, 2, 3], [0, 1, 5, 40], [0, 400]):
        st = [base + k*D for k in days]
        for lay in (('lat',), ('lat', 'lon'), ('pres', 'lat'), ()):
            for gen in (None, 0, 1):
                if gen == 1 and not lay: continue
                s = Store()
                try:
                    paths = []
                    for i, a in enumerate(st):
                        def b(a=a):
                            axs = [oaxis(k) for k in lay]
                            x = field([a], ('time',) + lay)[0]
                            if gen is not None:
                                axs.insert(gen, pyg.NamedAxis([3.], 'time')); x = np.expand_dims(x, gen)
                            return pyg.Dataset([ref.var(axs, x, 'getview', name='v') if axs else pyg.Var((), values=x, name='v')])
                        paths.append(s.put(fname('f$d-$m-$Y', cal, a), b))
                    what = 'files without a time axis: %s, generic axis at %s, days %s' % (lay, gen, days)
                    for oname, order in orders(paths):
                        ds, err = ref.attempt(lambda: pyg.open_multi(order, opener=s, pattern='$d-$m-$Y')); rec.step()
                        if not rec.check(err is None, lambda: '%s, %s: %r' % (what, oname, err), 'notime'): continue
                        L = list(lay); L.insert(gen or 0, 'time')
                        v = ds.v
                        verify(rec, what + ', ' + oname, 'notime', v, 'std', st if cal == 'std' else None, tuple(L)) if cal == 'std' else None
                finally: s.close()

def mixed(case, rec):
    """variables on different time axes, or none, in the same files"""
    import pygeode as pyg
    cal = case[1]
    base = C.seconds(cal, (2000, 2, 27)); st = [base + k*D for k in range(4)]
    for steps in ((6, 24), (24, 6), (12, 8)):
        for um in UM:
            u, own = UM[um]
            s = Store()
            try:
                tt = [[list(range(a, a+D, h*3600)) for a in st] for h in steps]
                paths = []
                for i, a in enumerate(st):
                    def b(i=i, a=a):
                        start = C.date(cal, a if own else base)
                        t1, t2 = [taxis(cal, tt[k][i], u, start, n) for k, n in ((0, 'time'), (1, 'times'))]
                        return pyg.Dataset([ref.var([t1, oaxis('lat')], field(tt[0][i], ('time', 'lat')), 'getview', name='v'), ref.var([oaxis('lat'), t2], field(tt[1][i], ('lat', 'time'), 1), 'getview', name='u')])
                    paths.append(s.put(fname('f$Y$m$d', cal, a), b))
                ds, err = ref.attempt(lambda: pyg.open_multi(paths, opener=s, pattern='$Y$m$d')); rec.step()
                what = '%s steps %s units %s' % (cal, steps, um)
                if not rec.check(err is None, lambda: '%s: %r' % (what, err), 'mixed'): continue
                verify(rec, what, 'mixed', ds.v, cal, sum(tt[0], []), ('time', 'lat'))
                g, err = ref.attempt(lambda: ds.u.get()); rec.step(); e = field(sum(tt[1], []), ('lat', 'time'), 1)
                rec.check(err is None and ref.same(g, e, 0, 0) and dates_of(ds.u.axes[1]) == [C.date(cal, q) for q in sum(tt[1], [])], lambda: ref.diffmsg('%s: %r' % (what, err), g, e), 'mixed')
                rec.state(what)
            finally: s.close()

def openall(case, rec):
    """openall: every way to distribute 5 times among k files, in every order"""
    import pygeode as pyg
    _, cal, n, k, tier = case
    lay = LAYS[n]; it = lay.index('time')
    base = C.seconds(cal, (2000, 2, 28))
    N = 5 if tier == 'quick' else 6
    secs = [base + h*3600 for h in (0, 6, 30, 31, 800, 9000)][:N]
    dist = [d for d in itertools.product(range(k), repeat=N) if len(set(d)) == k]
    if tier == 'quick' and k == 3: dist = dist[n::6] if n else dist[::2]     # every layout takes others
    for di, d in enumerate(dist):
        for rev in ((0, 1) if di % 3 == 0 or tier == 'thorough' else (0,)):
            for um in (['days', 'own'] if di % 2 else ['hours', 'ownh']) if tier == 'quick' else UM:
                s = Store()
                try:
                    u, own = UM[um]; fs = []; times = []
                    for i in range(k):
                        t = [x for x, q in zip(secs, d) if q == i][:: -1 if rev else 1]; times.append(t)
                        start = C.date(cal, min(t) if own else base)
                        def b(t=t, start=start, i=i):
                            ds = dset(cal, t, lay, u, start, n=i)
                            if k == 1: return ds
                            return pyg.Dataset(list(ds.vars) + [pyg.Var([oaxis('lat')], values=np.array([4., 5., 6.]), name='c')], atts=ds.atts)
                        fs.append(s.put('f%d' % i, b))
                    for srt in (True, False):
                        for order in itertools.permutations(range(k)):
                            what = '%s %s, files with times %s%s, units %s, order %s, sorted %s' % (cal, lay, d, ' reversed' if rev else '', um, order, srt)
                            ds, err = ref.attempt(lambda: pyg.openall([fs[i] for i in order], opener=s, sorted=srt)); rec.step()
                            if not rec.check(err is None, lambda: '%s: %r' % (what, err), 'all:open'): continue
                            L = [x for i in order for x in times[i]]
                            if srt: L = sorted(L)
                            at = dict(title='abc', file=0) if k == 1 else dict(title='abc')
                            rec.check([v.name for v in ds.vars] == ['v', 'u', 'c'][:2 if k == 1 else 3] and ds.v.atts == dict(units='K', note='abc') and ds.atts == at, lambda: '%s: %s %s %s' % (what, ds, ds.v.atts, ds.atts), 'all:meta')
                            full = di % 7 == 0 and order == tuple(range(k)) or tier == 'thorough'
                            verify(rec, what, 'all', ds.v, cal, L, lay, reads=full)
                            verify(rec, what, 'all', ds.u, cal, L, ('time',), salt=1, reads=False)
                            if k > 1: rec.check(ref.same(ds.c.get(), [[x]*k for x in (4., 5., 6.)]), lambda: '%s: c = %s' % (what, ds.c.get()), 'all:const')
                finally: s.close()

def alldup(case, rec):
    """openall sorts the other axes too; files along another axis than time"""
    import pygeode as pyg
    _, cal, n = case
    lay = LAYS[n]
    for k in [x for x in lay if x != 'time' and len(OTH[x]) > 1]:
        base = C.seconds(cal, (2000, 2, 28)); secs = [base, base + 5*D]
        t = lambda: taxis(cal, secs, 'days', C.date(cal, base))
        e = field(secs, lay); i = lay.index(k); m = len(OTH[k])
        for perm in itertools.permutations(range(m)):
            for cut in range(1, m):
                s = Store()
                try:
                    fs = []
                    for j, part in enumerate((perm[:cut], perm[cut:])):
                        def b(part=list(part)):
                            axs = [t() if q == 'time' else oaxis(q) for q in lay]
                            axs[i] = axs[i].slice[part]
                            return pyg.Dataset([ref.var(axs, np.take(e, part, axis=i), 'getview', name='v')])
                        fs.append(s.put('g%d' % j, b))
                    for srt in (True, False):
                        ds, err = ref.attempt(lambda: pyg.openall(fs[::-1] if srt else fs, opener=s, sorted=srt)); rec.step()
                        what = '%s split along %s %s at %d, sorted %s' % (lay, k, perm, cut, srt)
                        if not rec.check(err is None, lambda: '%s: %r' % (what, err), 'dup'): continue
                        o = list(range(m)) if srt else list(perm)
                        g, err = ref.attempt(lambda: ds.v.get()); x = np.take(e, o, axis=i)
                        rec.check(err is None and ref.same(g, x, 0, 0) and ref.same(ds.v.axes[i].values, np.array(OTH[k])[o]), lambda: ref.diffmsg('%s: %r' % (what, err), g, x), 'dup')
                        rec.state(what)
                finally: s.close()

def real(case, rec):
    """the same with netCDF files"""
    import pygeode as pyg
    from . import p18
    _, w, cal, tier = case
    for plan, lay in (('day6hlast3', LAYS[2]), ('day8hoff', LAYS[1]), ('monthmid', LAYS[2]), ('min5', LAYS[0])) if tier == 'quick' else itertools.product(('day6hlast3', 'day8hoff', 'monthmid', 'min5'), LAYS[:3]):
        if 1:
            for um in ('days', 'ownh'):
                pat, st, times = PLANS(cal)[plan]
                u, own = UM[um]
                p18.path(); d = ref.tmpdir(os.path.relpath(p18._dir[0], tempfile.gettempdir()) + '/x')
                m, o = p18.W[w]; paths = []
                for i, (a, t) in enumerate(zip(st, times)):
                    p = os.path.join(d, fname(pat, cal, a)); paths.append(p)
                    p18.drv(m).save(p, dset(cal, t, lay, u, C.date(cal, a if own else st[0]), n=i), **o)
                secs = sum(times, [])
                for r, fm in (('c', 'netcdf'), ('p', 'netcdf4')):
                    for oname, order in orders(paths):
                        if tier == 'quick' and oname in ('rotated', 'globs'): continue
                        for fn in ('open_multi', 'openall'):
                            what = '%s %s %s saved with %s, %s with %s, %s' % (cal, plan, lay, w, fn, fm, oname)
                            kw = dict(pattern=pat) if fn == 'open_multi' else {}
                            ds, err = ref.attempt(lambda: getattr(pyg, fn)(order, format=fm, **kw)); rec.step()
                            if not rec.check(err is None, lambda: '%s: %r' % (what, err), 'real'): continue
                            verify(rec, what, 'real', ds.v, cal, secs, lay, reads=oname == 'sorted' and (um == 'days') == (fn == 'openall'))
                            verify(rec, what, 'real', ds.u, cal, secs, ('time',), salt=1, reads=False)
                            # options are passed on
                            ds, err = ref.attempt(lambda: getattr(pyg, fn)(order, format=fm, varlist=['u'], namemap={'u': 'q'}, **kw)); rec.step()
                            rec.check(err is None and [v.name for v in ds.vars] == ['q'], lambda: '%s with varlist: %r %s' % (what, err, ds), 'real:kw')
                            if err is None: verify(rec, what, 'real:kw', ds.q, cal, secs, ('time',), salt=1, reads=False)

def one(case, rec):
    """a single file; no file"""
    import pygeode as pyg
    for cal in ('std', 'm365', 'm360'):
        for n, lay in enumerate(LAYS):
            base = C.seconds(cal, (2000, 2, 28)); secs = [base + k*21600 for k in range(5)]
            s = Store()
            try:
                p = s.put('v20000228', lambda: dset(cal, secs, lay, 'days', C.date(cal, base)))
                for fn in ('open_multi', 'openall'):
                    for arg in (p, [p], (p,), s.dir + '/v*'):
                        kw = dict(pattern='$Y$m$d') if fn == 'open_multi' else {}
                        ds, err = ref.attempt(lambda: getattr(pyg, fn)(arg, opener=s, **kw)); rec.step()
                        if rec.check(err is None, lambda: '%s of one file: %r' % (fn, err), 'one'): verify(rec, '%s of one file' % fn, 'one', ds.v, cal, secs, lay)
                    ds, err = ref.attempt(lambda: getattr(pyg, fn)(s.dir + '/nothing*', opener=s, **kw)); rec.step()
                    rec.check(err is not None, lambda: '%s of no file: %s' % (fn, ds), 'one:none')
            finally: s.close()

def misfit(case, rec):
    """files whose first and last have different phases can't form one regular axis"""
    import pygeode as pyg
    for cal in ('std', 'm365', 'm360'):
        for u in ('days', 'hours', 'minutes', 'seconds'):
            for step in (1, 3, 6, 12):
                for late in range(0, step*60, 30):
                    base = C.seconds(cal, (2000, 2, 28)); s = Store()
                    try:
                        tt = [list(range(a, a+D, step*3600)) for a in (base, base + D, base + 2*D)]
                        tt[2] = [x + late*60 for x in tt[2] if x + late*60 < base + 3*D]
                        ps = [s.put('v%d' % (28+i), lambda t=t: dset(cal, t, ('time',), u, C.date(cal, base))) for i, t in enumerate(tt)]
                        f2d = lambda f: dict(zip(F, C.date(cal, base + (int(f[-2:])-28)*D)))
                        ds, err = ref.attempt(lambda: pyg.open_multi(ps, file2date=f2d, opener=s)); rec.step()
                        what = '%s, step %d h, in %s, last file %d minutes late' % (cal, step, u, late)
                        off = late/60/step % 1; off = min(off, 1-off)
                        if 0 < off <= .11: continue      # how far apart they may be is not specified
                        if off: rec.check(isinstance(err, ValueError), lambda: '%s: %r %s' % (what, err, None if err else ds.v.time), 'misfit')
                        else: rec.check(err is None, lambda: '%s: %r' % (what, err), 'misfit')
                        rec.state(what)
                    finally: s.close()
