"""A controlled scheduler for threads that run the real code.

One thread runs at a time.  A thread offers a scheduling point at every line (or bytecode) of chosen source
files of the tree under test, on every lock operation of pygeode, and before, inside and after every call of a
netCDF library.  An execution is determined by the starting thread and the set of preemptions {point: thread};
explore() enumerates every execution with at most `bound` preemptions (thread switches at blocking operations
and at the end of a thread are free).

install() re-imports pygeode with: locks it creates replaced by locks the scheduler knows about, and the netCDF
libraries behind a monitor that reports two threads being inside one at the same time."""
import _thread, gc, os, sys, threading, time
REAL = threading.Lock, threading.RLock
CUR = None          # the running execution, if any

class Stop(BaseException): pass

def me(): return CUR.ids.get(_thread.get_ident()) if CUR is not None else None

class CLock:
    """Lock/RLock; for threads of the running execution, waiting is a scheduling decision"""
    def __init__(self, re): self.re = re; self.owner = None; self.n = 0; self.real = REAL[0]()
    def acquire(self, blocking=True, timeout=-1):
        who = _thread.get_ident(); t = me()
        if t is None:
            while True:
                with self.real:
                    if self.owner is None or (self.re and self.owner == who): self.owner = who; self.n += 1; return True
                if not blocking: return False
                time.sleep(.001)
        ex = CUR
        ex.point(t, 'lock')
        while True:
            if self.owner is None or (self.re and self.owner == who): self.owner = who; self.n += 1; return True
            if not blocking or timeout >= 0: return False
            ex.block(t, self)
    def release(self):
        if self.owner is None: raise RuntimeError('release unlocked lock')
        if self.re and self.owner != _thread.get_ident(): raise RuntimeError('cannot release un-acquired lock')
        self.n -= 1
        if self.n == 0:
            self.owner = None
            t = me()
            if t is not None: CUR.point(t, 'unlock')
    def locked(self): return self.owner is not None
    __enter__ = acquire
    def __exit__(self, *a): self.release()
    def _is_owned(self): return self.owner == _thread.get_ident()

class Lib:
    """a C library, with the monitor around each function"""
    def __init__(self, lib, name): self.__dict__['_lib'] = lib; self.__dict__['_n'] = name; self.__dict__['_f'] = {}
    def __getattr__(self, k):
        if k not in self._f: self._f[k] = Func(getattr(self._lib, k), self._n, k)
        return self._f[k]
    def __getitem__(self, k): return getattr(self, k)
    def __setattr__(self, k, v): setattr(self._lib, k, v)
class Func:
    def __init__(self, f, lib, name): self.__dict__.update(_f=f, _l=lib, _n=name)
    def __call__(self, *a, **k):
        with inside(self._l, self._n): return self._f(*a, **k)
    def __getattr__(self, k): return getattr(self._f, k)
    def __setattr__(self, k, v): setattr(self._f, k, v)

class inside:
    """this thread is inside the library"""
    def __init__(self, lib, name): self.lib = lib; self.name = name
    def __enter__(self):
        self.t = t = me()
        if t is None: return self
        self.ex = ex = CUR
        ex.point(t, self.name)
        other = [(u, n) for u, n in ex.incall.get(self.lib, {}).items() if u != t]
        if other: ex.bad.add('%s is called in thread %d while thread %d is inside %s' % (self.name, t, other[0][0], other[0][1]))
        self.old = ex.incall.setdefault(self.lib, {}).get(t)
        ex.incall[self.lib][t] = self.name
        ex.point(t, 'in ' + self.name)
    def __exit__(self, *a):
        if self.t is None: return
        d = self.ex.incall[self.lib]
        if self.old is None: del d[self.t]
        else: d[self.t] = self.old
        if a[0] is None: self.ex.point(self.t, 'after ' + self.name)

def nc4():
    """stand-ins for netCDF4.Dataset and Variable that put the monitor around the real ones"""
    import netCDF4
    RD = netCDF4.Dataset if not hasattr(netCDF4, '_mc') else netCDF4._mc
    L = 'netCDF4'
    class V:
        def __init__(self, v, d): self.__dict__['_v'] = v; self.__dict__['_d'] = d   # (a variable keeps its file open)
        def __getattr__(self, k):
            if k in ('dtype', 'datatype', 'mask', 'scale', 'always_mask', 'chartostring', 'ndim'): return getattr(self._v, k)
            x = getattr(type(self._v), k, None)
            if callable(x): x = getattr(self._v, k)
            else:
                with inside(L, k): x = getattr(self._v, k)
            if not callable(x): return x
            def call(*a, **q):
                with inside(L, k): return x(*a, **q)
            return call
        def __setattr__(self, k, y):
            with inside(L, k): setattr(self._v, k, y)
        def __getitem__(self, i):
            with inside(L, 'getitem'): return self._v[i]
        def __setitem__(self, i, y):
            with inside(L, 'setitem'): self._v[i] = y
        def __len__(self): return len(self._v)
        def __array__(self, *a, **k): return self[...]
    class D:
        def __init__(self, *a, **k):
            with inside(L, 'Dataset'): self.__dict__['_o'] = RD(*a, **k)
        def __getattr__(self, k):
            if k == '_o': raise AttributeError(k)
            # (plain attributes; everything else may use the library)
            if k in ('groups', 'dimensions', 'data_model', 'disk_format', 'path', 'parent', 'file_format', 'cmptypes', 'vltypes', 'enumtypes', 'keepweakref', '_isopen'): return getattr(self._o, k)
            if k == 'variables': return {n: V(v, self) for n, v in self._o.variables.items()}
            with inside(L, k): x = getattr(self._o, k)
            if not callable(x): return x
            def call(*a, **q):
                with inside(L, k): y = x(*a, **q)
                return V(y, self) if k == 'createVariable' else y
            return call
        def __setattr__(self, k, y):
            with inside(L, k): setattr(self._o, k, y)
        def __enter__(self): return self
        def __exit__(self, *a): self.close()
        def close(self):
            with inside(L, 'close'): return self._o.close()
        def isopen(self): return '_o' in self.__dict__ and self._o.isopen()
        def __del__(self):
            o = self.__dict__.get('_o')
            try:
                if o is not None and o.isopen():
                    with inside(L, 'close'): o.close()
            except (Stop, Exception): pass
    netCDF4._mc = RD; netCDF4.Dataset = D

_done = False
def install():
    global _done
    if _done: return
    _done = True
    for m in [m for m in sys.modules if m == 'pygeode' or m.startswith('pygeode.')]: del sys.modules[m]
    def mk(i):
        def Lock():
            n = sys._getframe(1).f_globals.get('__name__', '')
            return CLock(i == 1) if n == 'pygeode' or n.startswith('pygeode.') else REAL[i]()
        return Lock
    threading.Lock, threading.RLock = mk(0), mk(1)
    import importlib.util
    # (load_lib must be replaced before the formats are imported, which happens on import of pygeode)
    class F:
        def find_spec(self, name, path=None, target=None):
            if name != 'pygeode.libhelper': return None
            sys.meta_path.remove(self)
            s = importlib.util.find_spec(name)
            ex = s.loader.exec_module
            def exec_module(mod):
                ex(mod)
                f = mod.load_lib
                mod.load_lib = lambda name, *a, **k: Lib(f(name, *a, **k), name) if name == 'netcdf' else f(name, *a, **k)
            s.loader.exec_module = exec_module
            return s
    sys.meta_path.insert(0, F())
    nc4()
    import pygeode, xarray, dask
    gc.collect(); gc.freeze()

class Exec:
    """one execution"""
    def __init__(self, fns, start, pre, files, opcodes=False, limit=200000):
        self.fns = fns; self.start = start; self.pre = dict(pre); self.files = files; self.opcodes = opcodes
        self.n = 0; self.ids = {}; self.incall = {}; self.bad = set(); self.limit = limit
        self.go = [REAL[0]() for f in fns]; self.main = REAL[0]()
        for g in self.go: g.acquire()
        self.main.acquire()
        self.done = [False]*len(fns); self.res = [None]*len(fns); self.blocked = [None]*len(fns)
        self.dead = False; self.trail = []; self.alts = []
    # ---- called by the running thread
    def point(self, t, tag):
        if self.dead: raise Stop()
        s = self.n; self.n += 1
        if s > self.limit: self.bad.add('execution does not end'); self.kill(t)
        self.alts.append((t, [u for u in range(len(self.fns)) if u != t and self.runnable(u)]))
        if s in self.pre and self.runnable(self.pre[s]):
            self.trail.append((s, t, tag, self.pre[s])); self.hand(t, self.pre[s])
    def runnable(self, u): return not self.done[u] and (self.blocked[u] is None or self.blocked[u].owner is None)
    def hand(self, t, u):
        self.blocked[u] = None
        self.go[u].release()
        if t is not None:
            self.go[t].acquire()
            if self.dead: raise Stop()
    def block(self, t, lock):
        self.blocked[t] = lock
        r = [u for u in range(len(self.fns)) if u != t and self.runnable(u)]
        if not r:
            self.bad.add('deadlock'); self.kill(t)
        self.trail.append((self.n, t, 'blocked', r[0])); self.hand(t, r[0])
    def kill(self, t):
        self.dead = True
        for u in range(len(self.fns)):
            if u != t and not self.done[u]: self.go[u].release()
        raise Stop()
    def finish(self, t):
        self.done[t] = True
        if self.dead:
            if all(self.done): self.main.release()
            return
        r = [u for u in range(len(self.fns)) if self.runnable(u)]
        if r: self.trail.append((self.n, t, 'ended', r[0])); self.hand(None, r[0])
        elif all(self.done): self.main.release()
        else:
            self.bad.add('deadlock'); self.dead = True
            for u in range(len(self.fns)):
                if not self.done[u]: self.go[u].release()
    def tracer(self, t):
        files = self.files; ex = self; ops = self.opcodes
        def local(frame, ev, arg):
            if ev == ('opcode' if ops else 'line'): ex.point(t, '%s:%d' % (os.path.basename(frame.f_code.co_filename), frame.f_lineno))
            return local
        def glob(frame, ev, arg):
            if ev != 'call' or not files(frame.f_code.co_filename): return None
            if ops: frame.f_trace_opcodes = True
            return local
        return glob
    def body(self, t):
        self.ids[_thread.get_ident()] = t
        self.go[t].acquire()
        try:
            if not self.dead:
                if self.files is not None: sys.settrace(self.tracer(t))
                try: self.res[t] = ('ok', self.fns[t]())
                except Stop: pass
                except Exception as e: self.res[t] = ('raised', e)
                finally: sys.settrace(None)
        except Stop: pass
        self.finish(t)
    def run(self, wait=120):
        global CUR
        g = gc.isenabled(); gc.disable(); CUR = self
        try:
            th = [threading.Thread(target=self.body, args=(t,), daemon=True) for t in range(len(self.fns))]
            for x in th: x.start()
            while len(self.ids) < len(th): time.sleep(0)
            self.go[self.start].release()
            if not self.main.acquire(timeout=wait): self.bad.add('no progress'); self.dead = True; return self
            for x in th: x.join(wait)
        finally:
            CUR = None
            if g: gc.enable()
        return self

def explore(mk, bound, files, judge, opcodes=False, part=(0, 1)):
    """every execution with at most `bound` preemptions; mk() returns (fns, cleanup); judge(exec, state) checks one.
    part=(i, n): only those whose first preemption is at a point k with k % n == i (for i > 0, none without preemption).
    Returns (number of executions, number of scheduling points)."""
    count = pts = 0
    n = len(mk.names)
    stack = [(s, ()) for s in range(n)[::-1]]
    while stack:
        s, pre = stack.pop()
        st = mk()
        ex = Exec(st.fns, s, pre, files, opcodes).run()
        if pre or part[0] == 0:
            count += 1; pts += ex.n
            if judge(ex, st, pre) is False: return count, pts
        st.close()
        if len(pre) < bound:
            lo = pre[-1][0] + 1 if pre else 0
            for k in range(len(ex.alts) - 1, lo - 1, -1):
                if not pre and k % part[1] != part[0]: continue
                for u in ex.alts[k][1]: stack.append((s, pre + ((k, u),)))
    return count, pts
