"""P31: the file scanner reflects the files on disk."""
import os, itertools, shutil, math
import numpy as np
from . import ref

BOUND = {'quick': 'histories of two files and a manifest: every sequence of up to 6 operations (write one of 4 contents with a newer or an older time stamp, touch, remove, exchange, scan one or both), a quarter of a second apart; process killed at each line of the scan (9 histories); every prefix of the manifest, cut or zero-filled; a file rewritten or unreadable during the scan; '
          'every collection of up to 3 files, each with a box of 2 variables x 2 times x 2 latitudes (and other sizes), against all maximal boxes of the data; with a variable without time axis; 45 layouts of files (order, reference dates, units, calendars, types, names, auxiliary arrays, pieces), each variable in every combination of 3-9 selections per axis; all queries of DataInterface over up to 4 of 5 datasets; every pair and triple of 17 axes in AxisManager',
 'thorough': 'the same with histories one operation longer, collections of up to 4 files'}
TECH = 'explicit-state exploration of file histories and crash points of the real scanner; exhaustive enumeration of file collections against an independent model of the available data'
HANG = 600

# ---- helpers ---------------------------------------------------------------
DIR = [None]
def workdir():
    if DIR[0] is None or not os.path.isdir(DIR[0]): DIR[0] = ref.tmpdir('scan')
    return DIR[0]
def wipe():
    if DIR[0]: shutil.rmtree(DIR[0], ignore_errors=True); DIR[0] = None
def scanner():
    from pygeode.formats import data_scanner
    return data_scanner
EPOCH = {}
def secs(t):
    """seconds of the elements of a time axis since its calendar's 2000-01-01 (independent of the units and reference date)"""
    from . import cal
    C = dict(StandardTime='std', ModelTime365='m365', ModelTime360='m360')[type(t).__name__]
    return [cal.seconds(C, tuple(int(t.auxarrays[f][i]) if f in t.auxarrays else dict(month=1, day=1).get(f, 0) for f in cal.FIELDS)) for i in range(len(t))]
def elements(a):
    import pygeode as pyg
    from pygeode.timeaxis import Time
    if isinstance(a, Time): return secs(a)
    ex = [a.auxarrays[k] for k in sorted(a.auxarrays)]
    return [(float(v),) + tuple(x[i] for x in ex) for i, v in enumerate(a.values)]
def describe(dsets, read=True):
    """canonical description of scanned datasets: order of the datasets and of the variables ignored"""
    out = []
    for d in dsets:
        vs = []
        for v in d:
            ax = tuple((type(a).__name__, a.name, tuple(elements(a))) for a in v.axes)
            vs.append((v.name, ax, repr(sorted(v.atts.items())), tuple(np.asarray(v.get()).ravel().tolist()) if read else None))
        out.append(tuple(sorted(vs)))
    return sorted(out)

def scan(files, opener, **kw):
    return scanner().from_files(list(files), opener, **kw)

# ---- histories of files and manifests ---------------------------------------
def T(vals, day=1, units='days'):
    import pygeode as pyg
    return pyg.StandardTime(np.array(vals, float), units=units, startdate=dict(year=2000, month=1, day=day))
def content(k):
    import pygeode as pyg
    lat = pyg.Lat([10., 20.])
    def v(t, name, c, **atts): return pyg.Var((T(t), lat), values=np.arange(2.*len(t)).reshape(-1, 2) + c, name=name, atts=atts)
    if k == 'A': return pyg.Dataset([v([0, 1], 'v', 0., note='x')])
    if k == 'B': return pyg.Dataset([v([2], 'v', 100., note='x')])
    if k == 'C': return pyg.Dataset([v([0, 1], 'w', 200., note='y')])
    if k == 'D': return pyg.Dataset([v([0, 1], 'v', 300., note='z'), v([1], 'w', 400.)])
    raise ValueError(k)
def text_opener(p):
    with open(p) as f: k = f.read()
    return content(k)

class Disk:
    """two data files and a manifest; every write has its own time stamp (a quarter of a second apart, or older than all)"""
    def __init__(self, d):
        self.d = d; self.clock = 0; self.old = 0; self.files = {}
        self.man = os.path.join(d, 'manifest')
    def p(self, f): return os.path.join(self.d, f)
    def stamp(self, how):
        if how == 'new': self.clock += 1; ns = 10**18 + self.clock*250000000
        else: self.old += 1; ns = 9*10**17 - self.old*10**9
        return ns
    def put(self, f, k, ns):
        with open(self.p(f), 'w') as g: g.write(k)
        os.utime(self.p(f), ns=(ns, ns)); self.files[f] = (k, ns)
    def apply(self, op):
        if op[0] == 'w': self.put(op[1], op[2], self.stamp(op[3]))
        elif op[0] == 't': ns = self.stamp('new'); os.utime(self.p(op[1]), ns=(ns, ns)); self.files[op[1]] = (self.files[op[1]][0], ns)
        elif op[0] == 'r': os.remove(self.p(op[1])); del self.files[op[1]]
        elif op[0] == 'm': os.rename(self.p('a'), self.p('tmp')); os.rename(self.p('b'), self.p('a')); os.rename(self.p('tmp'), self.p('b')); self.files = dict(a=self.files['b'], b=self.files['a'])
        elif op[0] == 's': return describe(scan([self.p(f) for f in op[1]], text_opener, manifest=self.man))
    def enabled(self, ops):
        for o in ops:
            if o[0] in 'tr' and o[1] not in self.files: continue
            if o[0] == 'm' and len(self.files) < 2: continue
            if o[0] == 's' and not all(f in self.files for f in o[1]): continue
            if o[0] == 'w' and self.files.get(o[1], ('',))[0] == o[2]: continue
            yield o
    def save(self):
        m = open(self.man, 'rb').read() if os.path.exists(self.man) else None
        return dict(self.files), self.clock, self.old, m, os.stat(self.man).st_mtime_ns if m is not None else None
    def restore(self, st):
        files, self.clock, self.old, m, t = st
        for f in list(self.files):
            if f not in files: os.remove(self.p(f))
        for f, (k, ns) in files.items(): self.put(f, k, ns)
        self.files = dict(files)
        if m is None:
            if os.path.exists(self.man): os.remove(self.man)
        else:
            with open(self.man, 'wb') as g: g.write(m)
            os.utime(self.man, ns=(t, t))

FRESH = {}
def fresh(files):
    """what a scan without a manifest finds (by contents)"""
    key = tuple(sorted(files.items()))
    if key not in FRESH:
        d = workdir()
        for f, k in key:
            with open(os.path.join(d, 'fresh_' + f), 'w') as g: g.write(k)
        FRESH[key] = describe(scan([os.path.join(d, 'fresh_' + f) for f, k in key], text_opener))
    return FRESH[key]

OPS = [('w', f, k, how) for f in 'ab' for k in 'ABCD' for how in ('new', 'old')] + [('t', 'a'), ('r', 'a'), ('m',)] + [('s', 'a'), ('s', 'b'), ('s', 'ab')]
# (files a and b behave alike: removals and touches of one are enough, any content can be written to both)
def hist(case, rec):
    _, first, depth = case
    d = Disk(workdir()); wipe(); d = Disk(workdir())
    def judge(trail):
        # the final scan uses the manifest but doesn't save it
        want = fresh({f: k for f, (k, ns) in d.files.items()})
        got, err = ref.attempt(lambda: describe(scan([d.p(f) for f in sorted(d.files)], text_opener, manifest=d.man, save_manifest=False)))
        rec.step(); rec.state(tuple((f, d.files[f][0]) for f in sorted(d.files)), os.path.exists(d.man), len(trail))
        rec.check(err is None and got == want, lambda: 'after %s: scan gives %s, without the manifest %s' % (trail, err or got, want), 'hist:%s' % (trail[-1][0]))
    def rec_(trail, left):
        ops = list(d.enabled(OPS))
        st = d.save()
        for o in ops:
            # a history of interest has at least one scan before its last operation; two scans in a row are the same as one
            if o[0] == 's' and trail and trail[-1] == o: continue
            if left == 1 and not any(t[0] == 's' for t in trail): continue
            got, err = ref.attempt(lambda: d.apply(o))
            if o[0] == 's':
                want = fresh({f: d.files[f][0] for f in o[1]})
                rec.check(err is None and got == want, lambda: 'after %s: scanning %s gives %s, without the manifest %s' % (trail, o[1], err or got, want), 'hist:scan')
            if any(t[0] == 's' for t in trail) and len(d.files): judge(trail + [o])
            if left > 1: rec_(trail + [o], left - 1)
            d.restore(st)
    try:
        tr = []
        for o in first:
            d.apply(tuple(o)); tr.append(tuple(o))
        if depth: rec_(tr, depth)
    finally: wipe()

# ---- damaged manifests, crashes while saving ---------------------------------
def start():
    wipe(); d = Disk(workdir())
    d.apply(('w', 'a', 'A', 'new')); d.apply(('w', 'b', 'B', 'new'))
    return d
def torn(case, rec):
    """every prefix of the manifest, with and without zeros in place of the rest; other contents"""
    _, part, parts = case
    d = start()
    try:
        d.apply(('s', 'ab'))
        full = open(d.man, 'rb').read()
        import gzip, pickle
        def gz(*x): return gzip.compress(b''.join(pickle.dumps(o) for o in x))
        bad = [('prefix %d of %d' % (n, len(full)), full[:n]) for n in range(len(full))] + [('prefix %d of %d, then zeros' % (n, len(full)), full[:n] + b'\0'*(len(full)-n)) for n in range(0, len(full))]
        bad += [('text', b'hello'), ('other version', gz('0', {})), ('older version', gz('3', {d.p('a'): []})), ('other pickle', gz([1], 7)), ('no table', gz('3')), ('no table', gz(scanner()._MANIFEST_VERSION)), ('other table', gz(scanner()._MANIFEST_VERSION, 3)), ('other table', gz(scanner()._MANIFEST_VERSION, {d.p('a'): 1}))]
        want = fresh(dict(a='A', b='B'))
        for what, m in bad[part::parts]:
            for sub in ('ab', 'a'):
                with open(d.man, 'wb') as g: g.write(m)
                got, err = ref.attempt(lambda: d.apply(('s', sub))); rec.step()
                w = want if sub == 'ab' else fresh(dict(a='A'))
                if not rec.check(err is None and got == w, lambda: 'manifest damaged (%s): scan gives %s, without it %s' % (what, err or got, w), 'torn'): break
                got, err = ref.attempt(lambda: d.apply(('s', 'ab')))
                rec.check(err is None and got == want, lambda: 'manifest damaged (%s), second scan gives %s, without it %s' % (what, err or got, want), 'torn:second')
            rec.state(what)
    finally: wipe()

def crash(case, rec):
    """the process is killed at each line of the scanner (in a child process)"""
    import sys
    _, prev, op, part, parts = case
    d = start()
    try:
        if prev: d.apply(('s', prev))
        if op: d.apply(tuple(op))
        base = d.save()
        fn = scanner().__file__
        n = 0; k = part
        while True:
            d.restore(base)
            pid = os.fork()
            if pid == 0:
                try:
                    os.dup2(os.open(os.devnull, os.O_WRONLY), 1); os.dup2(1, 2)
                    cnt = [0]
                    def tr(fr, ev, arg):
                        if fr.f_code.co_filename != fn or fr.f_code.co_name not in ('scan_files', 'save', 'from_files'): return None
                        def loc(fr, ev, arg):
                            if ev in ('line', 'return'):
                                if cnt[0] == k: os._exit(7)
                                cnt[0] += 1
                            return loc
                        return loc
                    sys.settrace(tr)
                    scan([d.p('a'), d.p('b')], text_opener, manifest=d.man)
                    sys.settrace(None)
                finally: os._exit(0)
            st = os.waitstatus_to_exitcode(os.waitpid(pid, 0)[1])
            got, err = ref.attempt(lambda: d.apply(('s', 'ab'))); rec.step()
            want = fresh({f: c for f, (c, ns) in d.files.items()})
            rec.check(err is None and got == want, lambda: 'process killed at point %d of the scan (before: %r %r): next scan gives %s, without manifest %s' % (k, prev, op, err or got, want), 'crash')
            rec.state(st, k)
            if st != 7: break
            k += parts
    finally: wipe()

def during(case, rec):
    """a file is rewritten by another program while it is scanned"""
    for prev in (None, 'a', 'ab'):
        for when in ('before', 'after', 'next'):
            for how in ('new', 'old'):
                for new in 'CD':
                    d = start()
                    try:
                        if prev:
                            d.apply(('s', prev)); d.apply(('t', 'a'))
                        def op(p):
                            hit = p.endswith('a') and not done
                            if hit and when == 'before': done.append(1); d.apply(('w', 'a', new, how))
                            r = text_opener(p)
                            if hit and when == 'after': done.append(1); d.apply(('w', 'a', new, how))
                            if p.endswith('b') and not done and when == 'next': done.append(1); d.apply(('w', 'a', new, how))
                            return r
                        done = []
                        scanner().from_files([d.p('a'), d.p('b')], op, manifest=d.man)
                        got, err = ref.attempt(lambda: d.apply(('s', 'ab'))); rec.step()
                        want = fresh({f: c for f, (c, ns) in d.files.items()})
                        rec.check(err is None and got == want, lambda: 'file rewritten (%s, %s) while it is scanned (%s): next scan gives %s, without manifest %s' % (new, how, when, err or got, want), 'during:%s' % when)
                        rec.state(prev, when, how, new)
                    finally: wipe()
    # a file that can't be read: the scan fails, the next one doesn't miss it
    for nbad in (1, 2):
        for keep in (True, False):
            d = start()
            try:
                man = scanner()._Manifest() if keep else d.man
                cnt = [0]
                def bad(p):
                    cnt[0] += 1
                    ds = text_opener(p)
                    if cnt[0] == nbad: raise IOError('not ready')
                    return ds
                ref.attempt(lambda: scan([d.p('a'), d.p('b')], bad, manifest=man))
                got, err = ref.attempt(lambda: describe(scan([d.p('a'), d.p('b')], text_opener, manifest=man))); rec.step()
                want = fresh(dict(a='A', b='B'))
                rec.check(err is None and got == want, lambda: 'a file could not be read at first: the next scan gives %s, without manifest %s' % (err or got, want), 'during:failed')
            finally: wipe()

def names(case, rec):
    """the ways to name files and formats"""
    d = start()
    cwd = os.getcwd()
    try:
        want = fresh(dict(a='A', b='B')); os.mkdir(d.p('sub'))
        D = d.d
        class Mod: open = staticmethod(text_opener)
        class Ifc: open_file = staticmethod(text_opener)
        os.chdir(D)
        sp = {'abs': [d.p('a'), d.p('b')], 'dots': [D + '/./a', D + '/sub/../b'], 'slashes': [D + '//a', D + '///b'], 'rel': ['a', './b'], 'twice': [d.p('a'), d.p('b'), D + '//a', d.p('b')], 'tuple': (d.p('b'), d.p('a')), 'glob': D + '/[ab]', 'relglob': './[ab]', 'mixed': ['a', d.p('a'), 'b']}
        for (n1, f1), (n2, f2) in itertools.product(sp.items(), repeat=2):
            for man in (None, d.man, 'manifest', './sub/../manifest'):
                if os.path.exists(d.man): os.remove(d.man)
                for n, f in ((n1, f1), (n2, f2)):
                    got, err = ref.attempt(lambda: describe(scanner().from_files(f, text_opener, manifest=man))); rec.step()
                    rec.check(err is None and got == want, lambda: 'files given as %s, then %s (manifest %s): %s, expected %s' % (n1, n2, man, err or got, want), 'names:%s' % n)
        for i in (Mod, Ifc, Mod(), text_opener, lambda p: text_opener(p)):
            got, err = ref.attempt(lambda: describe(scanner().from_files(sp['abs'], i))); rec.step()
            rec.check(err is None and got == want, lambda: 'interface %r: %s' % (i, err or got), 'names:interface')
        got, err = ref.attempt(lambda: scanner().from_files(sp['abs'], 7)); rec.check(isinstance(err, TypeError), lambda: 'interface 7 accepted', 'names:interface')
        got, err = ref.attempt(lambda: describe(scanner().from_files(sp['abs'], lambda p, k=None: text_opener(p) if k == 3 else None, opener_args=dict(k=3)))); rec.step()
        rec.check(err is None and got == want, lambda: 'opener_args: %r' % (err or got), 'names:args')
        got, err = ref.attempt(lambda: scanner().from_files([], text_opener)); rec.check(err is None and len(got) == 0, lambda: 'no files: %r' % (err or got), 'names:none')
        # netCDF files, by name of the format
        from . import p18
        v = ref.var((T([0., 1.]), __import__('pygeode').Lat([10., 20.])), np.arange(4.).reshape(2, 2), name='v')
        p = os.path.join(D, 'x.nc'); p18.save('c3', __import__('pygeode').Dataset([v]), out=p)
        for man in (None, d.p('m2'), d.p('m2')):
            got, err = ref.attempt(lambda: scanner().from_files(p, 'netcdf', manifest=man)); rec.step()
            rec.check(err is None and len(got) == 1 and ref.same(got[0].v.get(), np.arange(4.).reshape(2, 2)), lambda: 'netcdf: %r' % (err or got), 'names:netcdf')
    finally: os.chdir(cwd); wipe()

# ---- the collections of files -------------------------------------------------
LATS = [10., 20., 30.]
def val(v, t, l): return {'v': 1000., 'w': 2000., 'z': 3000.}[v] + 10*t + l/10.
class Fake:
    """files with names only: data is made by the opener"""
    def __init__(self, sets):
        self.d = workdir(); self.sets = {}
        for i, s in enumerate(sets):
            p = os.path.join(self.d, 'f%d' % i)
            if not os.path.exists(p): open(p, 'w').close()
            self.sets[p] = s
    def opener(self, p): return self.sets[p]()
def box(names, ts, ls):
    import pygeode as pyg
    def mk():
        out = []
        for n in names:
            A = ([T(ts)] if ts is not None else []) + [pyg.Lat([LATS[l] for l in ls])]
            d = np.array([[val(n, t, LATS[l]) for l in ls] for t in (ts if ts is not None else [0])])
            out.append(pyg.Var(A, values=d if ts is not None else d[0], name=n))
        return pyg.Dataset(out)
    return mk
def nonempty(n): return [s for k in range(1, n+1) for s in itertools.combinations(range(n), k)]
def universe(nv, nt, nl):
    return [(vs, ts, ls) for vs in nonempty(nv) for ts in nonempty(nt) for ls in nonempty(nl)]
def maximal(combo, nv, nt, nl, U):
    cov = set()
    for vs, ts, ls in combo: cov.update(itertools.product(vs, ts, ls))
    full = [b for b in U if all(p in cov for p in itertools.product(*b))]
    fs = [tuple(map(frozenset, b)) for b in full]
    return set(b for b in fs if not any(b != c and all(x <= y for x, y in zip(b, c)) for c in fs)), cov
SIZES = {'s': (2, 2, 2), 't': (2, 3, 2), 'l': (1, 3, 3), 'v': (3, 2, 1)}
def boxes(case, rec):
    """every collection of n files, each with a box of variables x times x latitudes"""
    _, size, n, part, parts = case
    nv, nt, nl = SIZES[size]; U = universe(nv, nt, nl); names = 'vwz'[:nv]
    wipe()
    try:
        for ci, combo in enumerate(itertools.combinations(U, n)):
            if ci % parts != part: continue
            F = Fake([box([names[i] for i in vs], list(ts), list(ls)) for vs, ts, ls in combo])
            got, err = ref.attempt(lambda: scan(list(F.sets), F.opener)); rec.step()
            what = lambda: 'files with %s' % [(''.join(names[i] for i in vs), 't%s' % list(ts), 'lat%s' % list(ls)) for vs, ts, ls in combo]
            if not rec.check(err is None, lambda: '%s: %r' % (what(), err), 'boxes:fail'): continue
            want, cov = maximal(combo, nv, nt, nl, U)
            have = []
            ok = True
            for ds in got:
                vs = frozenset(names.index(v.name) for v in ds)
                axs = {}
                for v in ds:
                    for a in v.axes: axs.setdefault(type(a).__name__, []).append(tuple(a.values))
                ok = ok and all(len(set(x)) == 1 for x in axs.values()) and sorted(axs) == ['Lat', 'StandardTime'] and all(v.shape == (len(axs['StandardTime'][0]), len(axs['Lat'][0])) for v in ds)
                if not ok: break
                ts, ls = axs['StandardTime'][0], axs['Lat'][0]
                ok = ok and list(ts) == sorted(set(ts)) and list(ls) == sorted(set(ls))
                have.append((vs, frozenset(int(t) for t in ts), frozenset(LATS.index(l) for l in ls)))
                # (values)
                if ci % 7 == 0 or n < 3:
                    for v in ds:
                        w = np.array([[val(v.name, t, l) for l in ls] for t in ts]); g, e = ref.attempt(lambda: v.get()); rec.step()
                        rec.check(e is None and ref.same(g, w, 0, 0), lambda: '%s: %s %s %s is %s, expected %s' % (what(), v.name, ts, ls, e or g, w), 'boxes:values')
            rec.check(ok and len(have) == len(set(have)) and set(have) == want, lambda: '%s: datasets %s, expected %s' % (what(), have, want), 'boxes:domains')
            rec.state(len(want), len(cov))
    finally: wipe()

def fixed(case, rec):
    """... with a variable that doesn't have a time axis: every value is found, and right"""
    _, n, part, parts = case
    U = universe(1, 2, 2); Z = [('z', None, ls) for ls in nonempty(2)]
    wipe()
    try:
        ci = 0
        for k in (1, 2):
            for zs in itertools.combinations(Z, k):
                for combo in itertools.combinations(U, n):
                    ci += 1
                    if ci % parts != part: continue
                    for first in (True, False):
                        L = list(zs) + [(('v',), ts, ls) for vs, ts, ls in combo]
                        if not first: L = L[::-1]
                        F = Fake([box(vs, None if ts is None else list(ts), list(ls)) for vs, ts, ls in L])
                        got, err = ref.attempt(lambda: scan(list(F.sets), F.opener)); rec.step()
                        what = lambda: 'files with %s' % L
                        if not rec.check(err is None, lambda: '%s: %r' % (what(), err), 'fixed:fail'): continue
                        seen = set()
                        for ds in got:
                            for v in ds:
                                g, e = ref.attempt(lambda: v.get()); rec.step()
                                if not rec.check(e is None, lambda: '%s: %r' % (what(), e), 'fixed:read'): continue
                                if not rec.check([a.name for a in v.axes] == (['lat'] if v.name == 'z' else ['time', 'lat']), lambda: '%s: %r' % (what(), v.axes), 'fixed:axes'): continue
                                ls = v.axes[-1].values; ts = v.axes[0].values if v.name == 'v' else [0]
                                w = np.array([[val(v.name, t, l) for l in ls] for t in ts]).reshape(v.shape)
                                rec.check(ref.same(g, w, 0, 0), lambda: '%s: %s is %s, expected %s' % (what(), v.name, g, w), 'fixed:values')
                                seen.update((v.name, t, l) for t in ts for l in ls)
                        want = set((n, t, LATS[l]) for vs, ts, ls in L for n in vs for t in (ts if ts is not None else [0]) for l in ls)
                        rec.check(seen == want, lambda: '%s: points %s, expected %s' % (what(), seen, want), 'fixed:points')
                        rec.state(len(want), len(got))
    finally: wipe()

# ---- layouts of the files ------------------------------------------------------
def layouts():
    """name -> files: each a function returning a dataset; what is there is computed from the same datasets"""
    import pygeode as pyg
    R = {}
    def v(A, salt, name='v', dtype='float64', **atts):
        d = (np.asarray(ref.data([len(a) for a in A], salt=salt)) % 97).astype(dtype)
        return pyg.Var(A, values=d, name=name, atts=atts)
    def files(key, *L): R[key] = [((lambda x=x: pyg.Dataset(x() if callable(x) else x))) for x in L]
    lat, dlat, lon = pyg.Lat([10., 20., 30.]), pyg.Lat([30., 20., 10.]), pyg.Lon([0., 120.])
    files('plain', [v([T([0, 1]), lat], 1)], [v([T([2, 3]), lat], 2)])
    files('reversed', [v([T([0, 1]), dlat], 1)], [v([T([2, 3]), dlat], 2)])
    files('mixed', [v([T([0, 1]), dlat], 1)], [v([T([2, 3]), lat], 2)])
    files('mixed2', [v([T([0, 1]), lat], 1)], [v([T([2, 3]), dlat], 2)])
    files('order', [v([T([0, 1]), lat], 1)], [v([lat, T([2, 3])], 2)])
    files('order3', [v([T([0, 1]), lat, lon], 1)], [v([lon, T([2, 3]), lat], 2)], [v([lat, lon, T([5])], 3)])
    files('refdate', [v([T([0, 1]), lat], 1)], [v([T([0, 1], day=3), lat], 2)])
    files('refdate2', [v([T([0, 1], day=5), lat], 1)], [v([T([0, 1], day=3), lat], 2)], [v([T([0, 1]), lat], 3)])
    files('units', [v([T([0, 1]), lat], 1)], [v([T([48, 54, 72], units='hours'), lat], 2)])
    files('units2', [v([T([0., .25], units='days'), lat], 1)], [v([T([720, 1080.], units='minutes'), lat], 2)], [v([T([90000, 90001], units='seconds'), lat], 3)])
    files('hours', [v([T(np.arange(24)/24.), lon], 1)], [v([T(np.arange(24)*1., units='hours', day=2), lon], 2)])
    files('thirds', [v([T(np.arange(3)/3.), lon], 1, 'v')], [v([T(np.arange(6)*8., units='hours'), lon], 2, 'w')])
    for nm, C in (('noleap', pyg.ModelTime365), ('m360', pyg.ModelTime360)):
        files(nm, [v([C([57., 58.], units='days', startdate=dict(year=2000, month=1, day=1)), lat], 1)], [v([C([24., 48.], units='hours', startdate=dict(year=2000, month=2, day=29 if nm == 'm360' else 28)), lat], 2)])
    files('calendars', [v([T([57, 58, 59, 60]), lat], 1, 'v')], [v([pyg.ModelTime365([57., 58., 59., 60.], units='days', startdate=dict(year=2000, month=1, day=1)), lat], 2, 'w')])
    files('levels', [v([T([0, 1]), pyg.Pres([1000., 500.], name='lev')], 1, 'v')], [v([T([0, 1]), pyg.Hybrid([1000., 500.], A=np.array([1., 2.]), B=np.array([1., .5]), name='lev')], 2, 'w')])
    files('hybrid', [v([T([0, 1]), pyg.Hybrid([1., 2., 3.], A=np.array([5., 6., 7.]), B=np.array([1., .5, 0.]))], 1)], [v([T([2]), pyg.Hybrid([1., 2., 3.], A=np.array([5., 6., 7.]), B=np.array([1., .5, 0.]))], 2)])
    files('hybridcut', [v([T([0]), pyg.Hybrid([1., 2.], A=np.array([5., 6.]), B=np.array([1., .5]))], 1)], [v([T([0]), pyg.Hybrid([3.], A=np.array([7.]), B=np.array([0.]))], 2)])
    files('names', [v([pyg.NamedAxis([1., 2., 3.], 'p')], 1, 'v')], [v([pyg.NamedAxis([1., 2., 3.], 'q')], 2, 'w')])
    files('names2', [v([pyg.NamedAxis([1., 2.], 'p'), pyg.NamedAxis([1., 2.], 'q')], 1, 'v')])
    files('latnames', [v([pyg.Lat([1., 2.], name='lat')], 1, 'v')], [v([pyg.Lat([1., 2.], name='latitude')], 2, 'w')])
    files('pieces', [v([T([0, 2]), pyg.Lat([10., 30.])], 1)], [v([T([1, 3]), pyg.Lat([10., 30.])], 2)], [v([T([0, 1, 2, 3]), pyg.Lat([20.])], 3)])
    files('pieces2', [v([T([0, 2, 4]), pyg.Lat([10., 30.]), pyg.Lon([0., 180.])], 1)], [v([T([1, 3]), pyg.Lat([10., 30.]), pyg.Lon([0., 180.])], 2)], [v([T([0, 1, 2, 3, 4]), pyg.Lat([20., 40.]), pyg.Lon([0., 180.])], 3)], [v([T([0, 1, 2, 3, 4]), pyg.Lat([10., 20., 30., 40.]), pyg.Lon([90., 270.])], 4)])
    files('unordered', [v([pyg.NamedAxis([3., 1., 2.], 'p'), lat], 1)])
    for dt in ('int16', 'float32', 'int32', 'bool'): files('type_' + dt, [v([T([0, 1]), lat], 1, dtype=dt)], [v([T([2]), lat], 2, dtype=dt)])
    files('nan', lambda: [v([T([0, 1]), lat], 1) * np.nan])
    files('inner', [v([T([0, 1, 2]), pyg.Lat([10., 20.])], 1, 'v'), v([T([0, 1, 2]), pyg.Lat([10., 20.])], 2, 'w')], [v([T([3]), pyg.Lat([10., 20.])], 3, 'v')], [v([T([3]), pyg.Lat([20.])], 4, 'w')])
    files('atts', [v([T([0]), lat], 1, 'v', a=1, b='x', c=2.)], [v([T([1]), lat], 2, 'v', a=1, b='y')], [v([T([2]), lat], 3, 'v', a=1, b='x', d=3)])
    files('arratts', [v([T([0]), lat], 1, 'v', a=np.array([1, 2]), b=np.array([1, 2]))], [v([T([1]), lat], 2, 'v', a=np.array([1, 2]), b=np.array([1, 3]))])
    files('single', [v([lat], 1)])
    files('axatts', lambda: [v([T([0]), pyg.Lat([10., 20.], atts=dict(note='n'))], 1)], lambda: [v([T([1]), pyg.Lat([10., 20.], atts=dict(note='n'))], 2)])
    files('dupl', [v([T([0, 1]), lat], 1)], [v([T([0, 1]), lat], 1)])
    files('clim', [v([pyg.StandardTime(month=[1, 2], units='days'), lat], 1)], [v([pyg.StandardTime(month=[3, 4], units='days'), lat], 2)])
    files('noyear', [v([pyg.StandardTime(month=[1, 2], day=[1, 1], units='days'), lat], 1)])
    return R

def read(case, rec):
    """the variables of scanned files, read in all kinds of selections, hold the values of the files"""
    import pygeode as pyg
    _, key, man = case
    from pygeode.tools import common_dict
    from pygeode.timeaxis import Time
    wipe()
    try:
        L = layouts()[key]; F = Fake(L); files = list(F.sets)
        D = [f() for f in L]
        # what is there: (variable, kind and name of axis = element ...) -> value
        pts = {}
        for d in D:
            for v in d:
                E = [[(type(a).__name__, a.name, e) for e in ek(a)] for a in v.axes]
                for ix in np.ndindex(*v.shape): pts[(v.name, frozenset(E[j][i] for j, i in enumerate(ix)))] = float(v.get()[ix])
        for order in itertools.permutations(files) if len(files) < 4 else [files, files[::-1]]:
            kw = {}
            if man:
                m = os.path.join(F.d, 'manifest')
                if os.path.exists(m): os.remove(m)
                scan(order[:1], F.opener, manifest=m); kw = dict(manifest=m)
            got, err = ref.attempt(lambda: scan(order, F.opener, **kw)); rec.step()
            if not rec.check(err is None, lambda: '%s: %r' % (key, err), 'read:%s' % key): continue
            seen = set()
            for ds in got:
                for v in ds:
                    A = v.axes; E = [[(type(a).__name__, a.name, e) for e in ek(a)] for a in A]
                    want = np.full(v.shape, np.inf)
                    for ix in np.ndindex(*v.shape): want[ix] = pts.get((v.name, frozenset(E[j][i] for j, i in enumerate(ix))), np.inf)
                    for ix in np.ndindex(*v.shape): seen.add((v.name, frozenset(E[j][i] for j, i in enumerate(ix))))
                    g, e = ref.attempt(lambda: v.get()); rec.step()
                    if not rec.check(e is None and ref.same(g, want, 0, 0), lambda: '%s: %s%s is %s, expected %s' % (key, v.name, [a.name for a in A], e or g, want), 'read:%s' % key): continue
                    for sl in itertools.product(*[sels(len(a)) for a in A]):
                        w = want
                        for i, s in enumerate(sl): w = np.take(w, s if isinstance(s, list) else np.arange(w.shape[i])[s], axis=i)
                        g, e = ref.attempt(lambda: v.slice[tuple(sl)].get()); rec.step()
                        rec.check(e is None and ref.same(g, w, 0, 0), lambda: '%s: %s%s is %s, expected %s' % (key, v.name, sl, e or g, w), 'read:%s' % key)
                    for other in ([A[::-1]] if len(A) > 1 else []):
                        g, e = ref.attempt(lambda: v.transpose(*[a.name for a in other]).get()); rec.step()
                        rec.check(e is None and ref.same(g, want.T if len(A) == 2 else want.transpose(2, 1, 0), 0, 0), lambda: '%s: transposed %s' % (key, e or g), 'read:%s' % key)
                    # attributes: those all files agree on
                    have = [x.atts for d in D for x in d if x.name == v.name]
                    wa = {k: a for k, a in have[0].items() if all(k in h and np.array_equal(h[k], a) for h in have)}
                    rec.check(sorted(v.atts) == sorted(wa) and all(np.array_equal(v.atts[k], wa[k]) for k in wa), lambda: '%s: attributes %r, expected %r' % (key, v.atts, wa), 'read:%s' % key)
                    for a in A:
                        src = [b for d in D for x in d for b in x.axes if b.name == a.name and type(b) is type(a)]
                        rec.check(len(src) > 0 and any(a.atts == b.atts for b in src), lambda: '%s: axis %r' % (key, a), 'read:%s' % key)
                        if len(a) > 1 and not isinstance(a, Time) and all(len(b) > 1 for b in src):
                            up = [b.values[1] > b.values[0] for b in src]
                            if len(set(up)) == 1 and key != 'unordered': rec.check((a.values[1] > a.values[0]) == up[0], lambda: '%s: order of axis %r' % (key, a.values), 'read:%s' % key)
            rec.check(seen == set(pts), lambda: '%s: the datasets lack %s, and have %s besides' % (key, sorted(map(str, set(pts) - seen))[:3], sorted(map(str, seen - set(pts)))[:3]), 'read:%s' % key)
            rec.state(key, len(got))
    finally: wipe()
def ek(a):
    """elements, those of axes without a year included"""
    from pygeode.timeaxis import Time
    if isinstance(a, Time) and not all(f in a.auxarrays for f in ('year', 'month', 'day')):
        return [tuple(sorted((k, int(x[i])) for k, x in a.auxarrays.items())) for i in range(len(a))]
    return elements(a)
def sels(n):
    out = [slice(None), slice(0, 1), slice(n-1, n)]
    if n > 1: out += [slice(None, None, -1), [n-1, 0], [0, 0, n-1]]
    if n > 2: out += [slice(1, n), slice(0, n, 2), [0, 2], [1, 0, 2]]
    return out

# ---- queries ------------------------------------------------------------------------
def find(case, rec):
    import pygeode as pyg
    DS = [{'v': 2}, {'v': 3, 'w': 3}, {'w': 4}, {'v': 3, 'z': 1}, {'v': 4, 'w': 4, 'z': 4}]
    def mk(d): return pyg.Dataset([pyg.Var((pyg.Lat(np.arange(n)*10.),), values=np.arange(n)*1., name=k) for k, n in sorted(d.items())])
    for k in range(1, 5):
        for combo in itertools.permutations(range(len(DS)), k):
            sets = [mk(DS[i]) for i in combo]; I = scanner().DataInterface(sets)
            rec.check([[id(v) for v in d] for d in I] == [[id(v) for v in d] for d in sets], lambda: 'iteration', 'find:iter')
            for n in 'vwzx':
                rec.check(I.have(n) == any(n in DS[i] for i in combo), lambda: 'have(%s)' % n, 'find:have')
            for names in (('v',), ('w',), ('z',), ('x',), ('v', 'w'), ('w', 'v'), ('v', 'w', 'z'), ('v', 'z')):
                fits = [i for i, c in enumerate(combo) if all(n in DS[c] for n in names)]
                for rn, req in (('none', None), ('long', lambda d: max(v.size for v in d) > 2), ('never', lambda d: False)):
                    f = [i for i in fits if req is None or req(sets[i])]
                    got, err = ref.attempt(lambda: list(I.find(*names, requirement=req))); rec.step()
                    w = [sets[i][names[0]] if len(names) == 1 else [sets[i][n] for n in names] for i in f]
                    rec.check(err is None and len(got) == len(w) and all((g is x) if len(names) == 1 else (len(g) == len(x) and all(p is q for p, q in zip(g, x))) for g, x in zip(got, w)), lambda: 'find(%s) among %s: %r' % (names, combo, err or got), 'find:find')
                    size = lambda i: max(DS[combo[i]][n] for n in names)
                    vw = lambda vl: sum(v.size for v in vl)
                    wa = lambda i: sum(DS[combo[i]][n] for n in names)
                    one = names[0] if len(names) == 1 else None
                    for arg in ([one, [one]] if one else [list(names), tuple(names)]):
                        for on, kw, key in (('none', {}, None), ('max', dict(maximize=vw), lambda i: -wa(i)), ('min', dict(minimize=vw), wa), ('max2', dict(maximize=(lambda vl: len(vl), vw)), lambda i: -wa(i)), ('min2', dict(minimize=(lambda vl: 0, vw)), wa), ('maxlist', dict(maximize=[lambda vl: len(vl), vw]), lambda i: -wa(i)), ('minlist', dict(minimize=[lambda vl: 0, vw]), wa)):
                            got, err = ref.attempt(lambda: I.find_best(arg, requirement=req, **kw)); rec.step()
                            what = 'find_best(%s, requirement=%s, %s) among %s' % (arg, rn, on, [DS[i] for i in combo])
                            if not f: rec.check(isinstance(err, KeyError), lambda: '%s: %r' % (what, err or got), 'find:none'); continue
                            if not rec.check(err is None, lambda: '%s: %r' % (what, err), 'find:%s' % on): continue
                            g = [got] if isinstance(arg, str) else got
                            ok = len(g) == len(names) and all(x.name == n for x, n in zip(g, names))
                            j = [i for i in f if all(any(x is y for y in sets[i]) for x in g)]
                            ok = ok and len(j) == 1 and (key is None or key(j[0]) == min(key(i) for i in f))
                            rec.check(ok, lambda: '%s: got %r' % (what, got), 'find:%s' % on)
            rec.state(combo)

def manager(case, rec):
    """equal axes are shared, others are not"""
    import pygeode as pyg
    L = [pyg.Lat([10., 20.]), pyg.Lat([10., 20.]), pyg.Lat([10., 20., 30.]), pyg.Lat([20., 10.]), pyg.Lon([10., 20.]), pyg.Lat([10., 20.], name='y'), T([0, 1]), T([0, 1]), T([0, 1], day=2), T([24, 48], units='hours'), T([0, 24], units='hours'), pyg.ModelTime365([0., 1.], units='days', startdate=dict(year=2000, month=1, day=1)),
         pyg.Hybrid([1., 2.], A=np.array([1., 2.]), B=np.array([0., 1.])), pyg.Hybrid([1., 2.], A=np.array([1., 3.]), B=np.array([0., 1.])), pyg.Hybrid([1., 2.], A=np.array([1., 2.]), B=np.array([0., 1.])), pyg.NamedAxis([1., 2.], 'p'), pyg.NamedAxis([1., 2.], 'q')]
    for n in (2, 3):
        for combo in itertools.permutations(range(len(L)), n):
            am = scanner().AxisManager(); out = []
            for i in combo:
                a = am.lookup_axis(L[i]); out.append(a); rec.step()
                rec.check(am.lookup_axis(L[i]) is a and a == L[i] and type(a) is type(L[i]) and a.name == L[i].name and ref.same(a.values, L[i].values), lambda: 'axis %r becomes %r' % (L[i], a), 'manager')
            for (i, a), (j, b) in itertools.combinations(zip(combo, out), 2):
                same = {(0, 1), (6, 7), (12, 14)}
                if tuple(sorted((i, j))) in same: rec.check(a is b, lambda: 'equal axes %r %r are not shared' % (a, b), 'manager:share')
            rec.state(combo if n == 2 else n)

def cases(tier):
    out = []
    q = tier == 'quick'
    # histories: first two operations fixed per case
    pre = []
    for k in 'ABCD':
        for s in ('a',):
            pre.append([['w', 'a', k, 'new'], ['s', 'a']])
    for k, l in itertools.product('ABCD', repeat=2):
        if k <= l or not q:
            pre.append([['w', 'a', k, 'new'], ['w', 'b', l, 'new'], ['s', 'ab']])
            pre.append([['w', 'a', k, 'new'], ['w', 'b', l, 'new'], ['s', 'b']])
            pre.append([['w', 'a', k, 'new'], ['w', 'b', l, 'old'], ['s', 'ab']])
    for p in pre: out.append(['hist', p, 2 if q else 3])
    if q:
        for k, l in ('AB', 'CD'):
            for o in OPS: out.append(['hist', [['w', 'a', k, 'new'], ['w', 'b', l, 'new'], ['s', 'ab'], list(o)], 2]) if o[0] != 'w' or o[2] != {'a': k, 'b': l}[o[1]] else None
    n = 6
    for i in range(n): out.append(['torn', i, n])
    for prev in (None, 'a', 'ab'):
        for op in (None, ['w', 'a', 'C', 'new'], ['w', 'b', 'D', 'old']):
            for i in range(2): out.append(['crash', prev, op, i, 2])
    out += [['during'], ['names'], ['find'], ['manager']]
    for size, n, parts in ([('s', 1, 1), ('s', 2, 1), ('s', 3, 6), ('t', 2, 2), ('l', 2, 1), ('l', 3, 16), ('v', 3, 2)] if q else [('s', 1, 1), ('s', 2, 1), ('s', 3, 8), ('s', 4, 32), ('t', 2, 2), ('t', 3, 64), ('l', 2, 1), ('l', 3, 16), ('v', 3, 2), ('v', 4, 16)]):
        for i in range(parts): out.append(['boxes', size, n, i, parts])
    for n, parts in (1, 1), (2, 2), (3, 4):
        for i in range(parts): out.append(['fixed', n, i, parts])
    for key in layouts():
        for man in (False, True): out.append(['read', key, man])
    return out

def run(case, rec):
    import warnings, io, contextlib; warnings.simplefilter('ignore')
    with contextlib.redirect_stdout(io.StringIO()): globals()[case[0]](case, rec)
