"""Several ranks in one process: threads of which exactly one runs at a time, under a random schedule.  They take
turns at every point where they communicate and whenever they print something."""
import io, os, pickle, random, sys, threading
from asaptools import simplecomm

class Stuck(BaseException): pass

class World(object):
    def __init__(self, n, rng, outdir):
        self.n, self.rng, self.dir = n, rng, outdir
        self.cv = threading.Condition()
        self.turn = None; self.dead = False
        self.state = ["ready"] * n          # ready, wait, ended
        self.cond = [None] * n
        self.events, self.errors = [], [""] * n
        self.syncs = [0] * n
        self.mail = [[] for _ in range(n)]
        self.local = threading.local()
        self.seen = self.look()
    # --- files that appeared or were replaced since the last look belong to the rank that ran
    def look(self):
        out = {}
        for a, _, fs in os.walk(self.dir):
            for f in fs:
                p = os.path.join(a, f)
                try: s = os.stat(p)
                except OSError: continue
                out[os.path.relpath(p, self.dir)] = (s.st_ino, s.st_mtime_ns if f.endswith(".tmp.nc") else s.st_ino)
        return out
    def account(self, k):
        now = self.look()
        for f in sorted(now):
            if f.endswith(".nc") and not f.endswith(".tmp.nc") and self.seen.get(f) != now[f]: self.events.append({"rank": k + 1, "what": "write", "file": f})
        self.seen = now
    def log(self, k, what): self.events.append({"rank": k + 1, "what": what, "file": ""})
    # --- scheduling
    def pick(self):
        ready = [k for k in range(self.n) if self.state[k] == "ready" or (self.state[k] == "wait" and self.cond[k]())]
        if not ready:
            if any(s != "ended" for s in self.state): self.dead = True
            self.turn = None
        else:
            self.turn = self.rng.choice(ready)
        self.cv.notify_all()
    def give(self, state, cond=None):
        k = self.local.k
        with self.cv:
            self.account(k)
            self.state[k], self.cond[k] = state, cond
            self.pick()
            if state == "ended": return
            while self.turn != k:
                if self.dead: raise Stuck()
                self.cv.wait(20)
            self.state[k] = "ready"
    def run(self, fn, timeout=60):
        def body(k):
            self.local.k = k
            with self.cv:
                while self.turn != k: self.cv.wait(20)
            try:
                fn(k)
                self.log(k, "end")
            except Stuck: pass
            except BaseException as e:
                self.errors[k] = type(e).__name__
                self.log(k, "error")
            self.give("ended")
        ts = [threading.Thread(target=body, args=(k,), daemon=True) for k in range(self.n)]
        for t in ts: t.start()
        out = sys.stdout
        sys.stdout = Yielding(self)
        orig = simplecomm.SimpleCommMPI
        simplecomm.SimpleCommMPI = lambda: Rank(self)
        try:
            with self.cv: self.pick()
            for t in ts: t.join(timeout)
        finally:
            sys.stdout = out
            simplecomm.SimpleCommMPI = orig
        return not any(t.is_alive() for t in ts)

class Yielding(io.TextIOBase):
    def __init__(self, w): self.w = w
    def write(self, s):
        if hasattr(self.w.local, "k") and s.strip(): self.w.give("ready")
        return len(s)

class Rank(simplecomm.SimpleComm):
    def __init__(self, w):
        super(Rank, self).__init__()
        self.w = w; self.k = w.local.k
    def get_size(self): return self.w.n
    def get_rank(self): return self.k
    def sync(self):
        w, k = self.w, self.k
        w.log(k, "sync")
        w.syncs[k] += 1
        m = w.syncs[k]
        w.give("wait", lambda: all(x >= m for x in w.syncs))
    def partition(self, data=None, func=None, involved=False, tag=0):
        w, k = self.w, self.k
        if k == 0:
            op = func if func else lambda *x: x[0][x[1]::x[2]]
            j = 0 if involved else 1
            for i in range(1, w.n):
                w.mail[i].append((tag, pickle.dumps(op(data, i - j, w.n - j))))
                w.give("ready")
            return op(data, 0, w.n) if involved else None
        w.give("wait", lambda: any(t == tag for t, _ in w.mail[k]))
        i = next(i for i, m in enumerate(w.mail[k]) if m[0] == tag)
        return pickle.loads(w.mail[k].pop(i)[1])
    def _no(self, *a, **k): raise RuntimeError("not simulated")
    ration = collect = divide = allreduce = _no
