"""Common machinery of all checks: scenarios -> records -> TLC verdicts -> evidence."""
import concurrent.futures as cf
import argparse, hashlib, importlib, json, multiprocessing, os, random, re, shutil, signal, sys, tempfile, time, traceback
from collections import Counter
from .env import VERIF
from .tlc import run_tlc

NCPU = 8

class Timeout(BaseException):
    pass

def _alarm(sig, frame):
    raise Timeout()

def _drive(args):
    """Runs in a worker process: drives one scenario in a fresh scratch directory."""
    modname, scn, limit = args
    mod = importlib.import_module("props." + modname)
    d = tempfile.mkdtemp(prefix="vscn")
    cwd = os.getcwd()
    signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(limit)
    try:
        os.chdir(d)
        try:
            recs = mod.drive(scn, d)
        except Timeout:
            recs = [{"kind": "timeout", "detail": "scenario did not end within %d s" % limit}]
        except Exception:
            recs = [{"kind": "crash", "detail": traceback.format_exc()[-3000:]}]
        return recs
    finally:
        signal.alarm(0)
        os.chdir(cwd)
        shutil.rmtree(d, ignore_errors=True)

def _quiet():
    devnull = os.open(os.devnull, os.O_WRONLY)
    os.dup2(devnull, 1); os.dup2(devnull, 2)
    import warnings
    warnings.simplefilter("ignore")

class Check(object):
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.mod = importlib.import_module("props." + prop.lower())
        self.rng = random.Random("%s-%s-%s" % (prop, tier, seed))
        self.quick = tier == "quick"
        self.t0 = time.time()
        self.tags = Counter(); self.nclauses = Counter()
        self.states = self.transitions = 0
        self.machine_errors = []
        self.notes = []

    # ---- driving -------------------------------------------------------------------------
    def drive_all(self, scns):
        limit = getattr(self.mod, "LIMIT", 120)
        name = self.mod.__name__.split(".")[-1]
        out = [None] * len(scns)
        nproc = getattr(self.mod, "NPROC", NCPU)
        todo = list(range(len(scns)))
        isolated = False
        while todo:
            ctx = multiprocessing.get_context("fork")
            nw = 1 if isolated else min(nproc, max(1, len(todo)))
            batch = todo[:1] if isolated else todo
            try:
                with cf.ProcessPoolExecutor(nw, mp_context=ctx, initializer=_quiet) as ex:
                    futs = {ex.submit(_drive, (name, scns[i], limit)): i for i in batch}
                    for f in cf.as_completed(futs):
                        i = futs[f]
                        out[i] = f.result()
                        if i in todo: todo.remove(i)
                isolated = False if not todo else isolated
            except cf.process.BrokenProcessPool:
                todo = [i for i in todo if out[i] is None]
                if isolated and todo:
                    out[todo[0]] = [{"kind": "died", "detail": "the process driving the scenario died"}]
                    todo = todo[1:]
                isolated = True
        return out

    # ---- verdicts ------------------------------------------------------------------------
    def _tlc_shard(self, module, recs, timeout):
        d = tempfile.mkdtemp(prefix="vshard")
        try:
            p = os.path.join(d, "t.ndjson")
            with open(p, "w") as f:
                for r in recs: f.write(json.dumps(r, sort_keys=True) + "\n")
            return run_tlc(module, cfg="Trace.cfg", env={"TRACE": p}, timeout=timeout)
        finally:
            shutil.rmtree(d, ignore_errors=True)

    def verdicts(self, module, recs, timeout=600):
        """recs: list of dicts with a unique integer "id".  Returns {id: [clauses]}."""
        if not recs: return {}
        res = {}
        nsh = max(1, min(NCPU, (len(recs) + 9) // 10))
        order = sorted(recs, key=lambda r: hashlib.md5(str(r["id"]).encode()).hexdigest())
        shards = [order[i::nsh] for i in range(nsh)]
        with cf.ThreadPoolExecutor(NCPU) as ex:
            for sh, r in zip(shards, ex.map(lambda s: self._tlc_shard(module, s, timeout), shards)):
                self._absorb(r, sh, res, module, timeout)
        return res

    def _absorb(self, r, sh, res, module, timeout):
        if "Parsing or semantic analysis failed" in r.out or "Could not find or load" in r.out:
            sys.stderr.write(r.out[-3000:])
            raise SystemExit("machinery error: %s" % module)
        got = set()
        for l in r.lines:
            m = re.match(r"R (\d+) (.*)$", l)
            if not m: continue
            i = int(m.group(1)); body = m.group(2)
            cl, _, tg = body.partition(" | ")
            got.add(i)
            res[i] = [c for c in cl.split() if c != "ok"]
            for t in tg.split(): self.tags[t] += 1
        self.states += r.states; self.transitions += r.transitions
        missing = [x for x in sh if x["id"] not in got]
        if missing:
            # TLC stopped at the first missing record (it cannot evaluate it): judge the rest
            first = missing[0]
            self.machine_errors.append((first["id"], r.out[-1500:]))
            res[first["id"]] = ["outside_the_specification"]
            if len(missing) > 1 and len(self.machine_errors) < 40:
                self._absorb(self._tlc_shard(module, missing[1:], timeout), missing[1:], res, module, timeout)

    # ---- design models -------------------------------------------------------------------
    def design(self):
        runs = self.mod.design(self.tier) if hasattr(self.mod, "design") else []
        out = []
        for run in runs:
            run = dict(run)
            name = run.pop("module")
            want = run.pop("expect", True)
            run.setdefault("workers", NCPU); run.setdefault("heap", "4g"); run.setdefault("timeout", 840)
            r = run_tlc(name, **run)
            self.states += r.states; self.transitions += r.transitions
            out.append({"module": name, "cfg": run.get("cfg", name + ".cfg"), "states": r.states, "transitions": r.transitions,
                        "wall_s": round(r.wall, 1), "ok": r.ok})
            if r.ok != want:
                sys.stderr.write(r.out[-3000:])
                raise SystemExit("machinery error: design model %s does not hold" % name)
        return out

# ---- known findings --------------------------------------------------------------------------
def known_findings(prop):
    p = os.path.join(VERIF, "KNOWN_FINDINGS.txt")
    out = []
    if os.path.exists(p):
        for line in open(p):
            m = re.match(r"known: property=(\S+) key=(\S+) clauses=(\S+) (.*)$", line.strip())
            if m and m.group(1) == prop:
                out.append({"key": m.group(2), "clauses": set(m.group(3).split(",")), "text": m.group(4)})
    return out

def run_check(prop, tier, seed, replay=None, limit=None):
    ck = Check(prop, tier, seed)
    mod = ck.mod
    if replay:
        with open(replay) as f: rp = json.load(f)
        scns = [rp["scenario"]]
        design = []
    else:
        design = ck.design()
        # the quick tier draws from the scenarios several times over, each time with other random choices
        scns = [s for _ in range(getattr(mod, "SCALE", 3) if tier == "quick" else 1) for s in mod.scenarios(ck)]
        if limit: scns = scns[:limit]
    tg = time.time()
    driven = ck.drive_all(scns)
    if hasattr(mod, "join"):
        driven = mod.join(scns, driven)
    td = time.time()
    recs, where, direct = [], {}, {}
    for si, rs in enumerate(driven):
        for r in rs:
            i = len(where) + 1
            where[i] = si
            if r.get("kind") in ("crash", "timeout", "died"):
                direct[i] = r
            else:
                r = dict(r); r["id"] = i
                recs.append(r)
    ver = ck.verdicts(mod.MODULE, recs)
    tv = time.time()
    byid = {r["id"]: r for r in recs}
    bad = []
    for i, cl in ver.items():
        if cl: bad.append((i, cl))
        for c in cl: ck.nclauses[c] += 1
    for i, r in direct.items():
        bad.append((i, [r["kind"]]))
    bad.sort()
    kf = known_findings(prop)
    seen_kf, viol = {}, []
    for i, cl in bad:
        key = scns[where[i]].get("key", "")
        k = next((k for k in kf if k["key"] == key and set(cl) <= k["clauses"]), None)
        if k is not None: seen_kf.setdefault(k["key"], (k, i, cl))
        else: viol.append((i, cl))
    for k, i, cl in seen_kf.values():
        print("KNOWN-FINDING: property=%s %s" % (prop, k["text"]))
    rdir = os.path.join(VERIF, "replays", prop)
    shutil.rmtree(rdir, ignore_errors=True)
    shown = 0
    for i, cl in viol:
        if shown >= 5: break
        os.makedirs(rdir, exist_ok=True)
        path = os.path.join(rdir, "%d.json" % (shown + 1))
        with open(path, "w") as f:
            json.dump({"property": prop, "clauses": cl, "scenario": scns[where[i]],
                       "record": byid.get(i, direct.get(i)), "machine": [m for m in ck.machine_errors if m[0] == i]}, f, indent=1, sort_keys=True)
        print("VIOLATION property=%s replay=%s" % (prop, path))
        print("   violated clauses: %s" % " ".join(cl))
        shown += 1
    if len(viol) > shown: print("   ... and %d more" % (len(viol) - shown))
    if not replay:
        need = getattr(mod, "REQUIRED_TAGS", [])
        miss = [t for t in need if not ck.tags.get(t)]
        if miss and not viol:
            raise SystemExit("machinery error: not exercised: %s" % miss)
        samples = []
        for r in recs[:1] + recs[len(recs) // 2:len(recs) // 2 + 1]:
            s = json.dumps(r, sort_keys=True)
            samples.append(s if len(s) < 4000 else s[:4000] + " ...")
        ev = {"property": prop, "tier": tier, "seed": seed, "level": getattr(mod, "LEVEL", "model_checking"),
              "coverage": {"states": ck.states, "transitions": ck.transitions, "traces_validated_against_impl": len(recs),
                           "scenarios": len(scns), "samples": samples, "design_models": design,
                           "features": dict(sorted(ck.tags.items())), "rule": getattr(mod, "RULE", ""),
                           "seconds": {"design": round(tg - ck.t0, 1), "drive": round(td - tg, 1), "verdicts": round(tv - td, 1)}},
              "assumptions": getattr(mod, "ASSUMPTIONS", []),
              "violations": len(viol), "wall_s": round(time.time() - ck.t0, 1)}
        edir = os.path.join(VERIF, "evidence"); os.makedirs(edir, exist_ok=True)
        with open(os.path.join(edir, prop + ".json"), "w") as f: json.dump(ev, f, indent=1)
    print("%s %s: %d scenarios, %d records, %d states, %d violations, %.1f s (drive %.1f, tlc %.1f)" % (
        prop, tier, len(scns), len(recs), ck.states, len(viol), time.time() - ck.t0, td - tg, tv - td))
    if os.environ.get("VERIF_TAGS"): print(dict(ck.tags), dict(ck.nclauses))
    return 1 if viol else 0

def main(argv=None):
    ap = argparse.ArgumentParser()
    ap.add_argument("property"); ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--replay"); ap.add_argument("--limit", type=int)
    a = ap.parse_args(argv)
    seed = int(os.environ.get("VERIF_SEED", "1"))
    return run_check(a.property, a.tier, seed, a.replay, a.limit)
