"""Exhaustive bounded exploration of a case space on the real code.

A check module gives
    cases(tier)          -> list (or iterable) of JSON-able cases: the whole bounded space, in simplest-first order
    run(case, rec)       -> explores one case; reports through `rec`
`rec.step(n)`  counts transitions (operation applications compared against the reference model),
`rec.state(k)` records a canonical observed state, `rec.fail(msg, key)` reports a disagreement.
Every case is executed: nothing is sampled, capped or skipped.  Cases are partitioned over forked workers;
a worker that dies or stops making progress is itself a violation of the case it was running.
"""
import hashlib, importlib, json, mmap, os, pickle, signal, struct, sys, time, traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

class Fail(Exception):
    def __init__(self, msg, key=None):
        Exception.__init__(self, msg); self.msg = msg; self.key = key

class Rec:
    def __init__(self):
        self.transitions = 0; self.traces = 0; self.states = set(); self.fails = []; self.case = None; self.idx = -1
        self.outcomes = {}; self.nfails = {}
    def step(self, n=1): self.transitions += n
    def trace(self, n=1): self.traces += n
    def state(self, *key):
        h = hashlib.blake2b(digest_size=10)
        for k in key: _upd(h, k)
        self.states.add(h.digest())
    def outcome(self, name): self.outcomes[name] = self.outcomes.get(name, 0) + 1
    def fail(self, msg, key=None, sub=None):
        """Record a violation of the current case and carry on (key: identifies the input for known findings)."""
        self.nfails[key] = n = self.nfails.get(key, 0) + 1
        if n <= MAXFAIL: self.fails.append(dict(idx=self.idx, case=self.case, msg=str(msg)[:4000], key=key, sub=sub))
    def check(self, cond, msg, key=None, sub=None):
        if not cond: self.fail(msg() if callable(msg) else msg, key, sub)
        return bool(cond)

def _upd(h, k):
    import numpy as np
    if isinstance(k, np.ndarray):
        h.update(str((k.shape, k.dtype.str)).encode())
        if k.dtype.kind == 'f':
            with np.errstate(all='ignore'): k = np.round(k, 9) + 0.
        h.update(np.ascontiguousarray(k).tobytes() if k.dtype != object else repr(k.tolist()).encode())
    else:
        h.update(repr(k).encode())
    h.update(b'|')

MAXFAIL = 50        # disagreements *stored* per key and worker; exploration never stops early
HANG = 180

def _worker(mod, cases, k, n, slot, stop, wfd):
    rec = Rec()
    try:
        devnull = os.open(os.devnull, os.O_WRONLY)
        if not os.environ.get('VERIF_DEBUG'):
            os.dup2(devnull, 1); os.dup2(devnull, 2)
        while True:
            with stop.get_lock(): i = stop.value; stop.value += 1
            if i >= len(cases): break
            slot[k*16:k*16+16] = struct.pack('qd', i, time.time())
            rec.case = cases[i]; rec.idx = i
            try:
                mod.run(cases[i], rec)
            except Fail as e:
                rec.fail(e.msg, e.key)
            except Exception as e:
                tb = traceback.format_exc().splitlines()
                rec.fail('unexpected %s: %s\n%s' % (type(e).__name__, e, '\n'.join(tb[-12:])), 'exc:%s' % type(e).__name__)
            rec.traces += 1
        slot[k*16:k*16+16] = struct.pack('qd', -1, time.time())
        out = dict(transitions=rec.transitions, traces=rec.traces, states=rec.states, fails=rec.fails, outcomes=rec.outcomes)
    except BaseException:
        out = dict(error=traceback.format_exc())
    with os.fdopen(wfd, 'wb') as f: pickle.dump(out, f)
    os._exit(0)

def explore(mod, cases, jobs=None):
    jobs = jobs or int(os.environ.get('VERIF_JOBS', '0')) or os.cpu_count() or 1
    jobs = max(1, min(jobs, len(cases)))
    slot = mmap.mmap(-1, 16*jobs)
    import multiprocessing
    nxt = multiprocessing.get_context('fork').Value('q', 0)       # the next case to explore
    procs = []
    sys.stdout.flush(); sys.stderr.flush()
    hang = getattr(mod, 'HANG', HANG)
    for k in range(jobs):
        slot[k*16:k*16+16] = struct.pack('qd', -2, time.time())
        r, w = os.pipe()
        pid = os.fork()
        if pid == 0:
            os.close(r)
            for p in procs:
                try: os.close(p[1])
                except OSError: pass
            try: _worker(mod, cases, k, jobs, slot, nxt, w)
            finally: os._exit(3)
        os.close(w)
        procs.append([pid, r, k, b'', False])
    import select
    fails = []; total = dict(transitions=0, traces=0, states=set(), outcomes={}, cases=len(cases))
    live = {p[1]: p for p in procs}
    while live:
        rd, _, _ = select.select(list(live), [], [], 2.0)
        for fd in rd:
            p = live[fd]
            b = os.read(fd, 1 << 20)
            if b: p[3] += b; continue
            os.close(fd); del live[fd]
            os.waitpid(p[0], 0)
            i, _t = struct.unpack('qd', slot[p[2]*16:p[2]*16+16])
            try: out = pickle.loads(p[3])
            except Exception: out = None
            if out is None:
                if p[4] is not False or i >= 0:
                    why = p[4] or 'the process running this case died (crash in compiled code?)'
                    fails.append(dict(idx=i, case=cases[i] if i >= 0 else None, msg=why, key='crash', sub=None))
                else:
                    raise SystemExit('worker died outside a case')
                continue
            if 'error' in out: raise SystemExit('harness error\n' + out['error'])
            total['transitions'] += out['transitions']; total['traces'] += out['traces']
            total['states'] |= out['states']; fails += out['fails']
            for o, c in out['outcomes'].items(): total['outcomes'][o] = total['outcomes'].get(o, 0) + c
        now = time.time()
        for p in list(live.values()):
            i, t = struct.unpack('qd', slot[p[2]*16:p[2]*16+16])
            if i >= 0 and now - t > hang and p[4] is False:
                p[4] = 'no result after %d s: the operation does not terminate' % hang
                os.kill(p[0], signal.SIGKILL)
    fails.sort(key=lambda f: (f['idx'], f['msg']))
    return total, fails

# ----------------------------------------------------------------------------------------------------
def known(pid):
    out = []
    p = os.path.join(VERIF, 'known_findings.jsonl')
    if os.path.exists(p):
        with open(p) as f:
            for line in f:
                line = line.strip()
                if not line or line.startswith('#'): continue
                d = json.loads(line)
                if d.get('property') == pid and d.get('status') == 'known': out.append(d)
    return out

def main(pid, argv):
    t0 = time.time()
    tier = os.environ.get('VERIF_TIER', 'quick')
    replay = None
    i = 0
    while i < len(argv):
        if argv[i] == '--tier': tier = argv[i+1]; i += 2
        elif argv[i] == '--replay': replay = argv[i+1]; i += 2
        else: raise SystemExit('unknown argument %r' % argv[i])
    if tier not in ('quick', 'thorough'): tier = 'quick'
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    from . import boot
    boot.boot()
    mod = importlib.import_module('mc.' + pid.lower())
    if hasattr(mod, 'setup'): mod.setup(tier)
    if replay:
        with open(replay) as f: r = json.load(f)
        cases = [r['case']]
    else:
        cases = list(mod.cases(tier))
        cases = json.loads(json.dumps(cases))      # exactly what a replay file would hold
    t1 = time.time()
    total, fails = explore(mod, cases)
    kf = known(pid)
    hit = set(); new = []
    for f in fails:
        for j, d in enumerate(kf):
            if f['key'] is not None and f['key'] in d['keys']: hit.add(j); break
        else: new.append(f)
    for j, d in enumerate(kf):
        if j in hit: print('KNOWN-FINDING: property=%s %s' % (pid, d['what']))
    ev = dict(property=pid, tier=tier, seed=seed, level=getattr(mod, 'LEVEL', 'model_checking'),
              coverage=dict(states=len(total['states']), transitions=total['transitions'],
                            traces_validated_against_impl=total['traces'],
                            exhaustive=True, bound=mod.BOUND[tier] if isinstance(mod.BOUND, dict) else mod.BOUND,
                            outcomes=dict(sorted(total['outcomes'].items())),
                            samples=[cases[j] for j in sorted({0, len(cases)//3, (2*len(cases))//3, len(cases)-1})]),
              assumptions=getattr(mod, 'ASSUMPTIONS', []), wall_s=round(time.time()-t0, 2), violations=len(new))
    if not replay:
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        with open(os.path.join(VERIF, 'evidence', pid + '.json'), 'w') as f: json.dump(ev, f, indent=1, default=str)
    print('%s tier=%s cases=%d states=%d transitions=%d traces=%d setup=%.1fs total=%.1fs' % (
        pid, tier, len(cases), len(total['states']), total['transitions'], total['traces'], t1-t0, time.time()-t0))
    if total['outcomes']: print('outcomes', json.dumps(dict(sorted(total['outcomes'].items()))))
    if new:
        f = new[0]
        d = os.path.join(VERIF, 'replays'); os.makedirs(d, exist_ok=True)
        path = replay or os.path.join(d, '%s-%s.json' % (pid, hashlib.sha1(json.dumps(f['case'], sort_keys=True, default=str).encode()).hexdigest()[:10]))
        if not replay:
            with open(path, 'w') as fh:
                json.dump(dict(property=pid, case=f['case'], sub=f['sub'], msg=f['msg'], key=f['key'],
                               how='python3 -m mc %s --replay <this file>' % pid), fh, indent=1, default=str)
        print(f['msg'])
        lim = 5000 if os.environ.get('VERIF_ALL') else 5
        for g in new[1:lim]: print('also: case %s key=%s: %s' % (json.dumps(g['case'])[:200], g['key'], g['msg'].splitlines()[0][:300]))
        print('%d disagreement(s) in %d case(s)' % (len(new), len({g['idx'] for g in new})))
        print('VIOLATION property=%s replay=%s' % (pid, path))
        return 1
    return 0
