"""C27: the command line runs the specification exactly as given."""
import datetime, json, multiprocessing, os, random, signal, sys, warnings
from lib import env, flowprop as P, flowrun
from lib.flowgen import fn, op, num
from props import c18
MODULE = "Check_C27"
RULE = ("random command lines of the real tool over random specifications and input files: options in all spellings and orders, repeated, abbreviated, joined, malformed; patterns and paths of input files that match all, "
        "some, none, files that are none; user modules needed, missing, broken; validation as errors; everything it writes is judged against the request the arguments describe")
REQUIRED_TAGS = ["malformed", "chunked", "override", "history", "no_history", "inputs_all", "inputs_some", "inputs_none", "pattern_unmatched", "not_netcdf", "module", "module_needed_missing", "module_file_missing", "module_broken",
                 "error_passed", "error_failed", "debug", "debug_dropped", "std_missing", "std_absent", "std_broken", "std_last", "several_std", "serial", "not_serial", "ranks", "ranks_failed", "written", "several_files", "bad_level", "skipped_file", "help", "chunk_twice", "deflate_twice"]
F = {"p_range": 0.35, "p_bad": 0.02, "depth": 1, "nvars": [1, 3], "p_files": 0.4, "p_skip": 0.05, "p_unit": 0.4, "p_chunk": 0.7, "p_mean": 0.3, "p_reduce": 0.6}
def design(tier):
    return [{"module": "MC_Cli", "cfg": "MC_Cli.cfg" if tier == "quick" else "MC_Cli_thorough.cfg"}]
def scenarios(ck):
    return P.plan(ck, [("cli", 480, F)], [("cli", 6000, F)])

MODS = {"twice.py": "twice", "thrice.py": "thrice"}
MOD = """from pyconform.functions import Function, is_constant
class %sFunction(Function):
    key = "%s"
    def __init__(self, data):
        super(%sFunction, self).__init__(data)
    def __getitem__(self, index):
        return self.arguments[0][index] * %d
"""
def modules(d):
    open(os.path.join(d, "twice.py"), "w").write(MOD % ("Twice", "twice", "Twice", 2))
    open(os.path.join(d, "thrice.py"), "w").write(MOD % ("Thrice", "thrice", "Thrice", 3))
    open(os.path.join(d, "idle.py"), "w").write("x = 1\n")
    open(os.path.join(d, "broken.py"), "w").write("raise RuntimeError('broken')\n")

def spell(r, name, short, val=None):
    """an option in one of its spellings"""
    full = {"chunk": "chunk", "deflate": "deflate", "debug": "debug", "error": "error", "stdfile": "stdfile", "module": "module", "no_history": "no_history", "serial": "serial"}[name]
    least = {"chunk": 1, "deflate": 3, "debug": 3, "error": 1, "stdfile": 2, "module": 1, "no_history": 1, "serial": 2}[name]
    lg = "--" + (full if r.random() < 0.6 else full[:r.randint(least, len(full))])
    if val is None: return [lg] if r.random() < 0.4 or not short else ["-" + short]
    w = r.random()
    if short and w < 0.4: return ["-" + short, val]
    if short and w < 0.6 and val: return ["-" + short + val]
    return [lg, val] if w < 0.8 else [lg + "=" + val]

def junk(r, dims):
    """an argument that is none"""
    d = dims[0] if dims else "x"
    return r.choice([["-c", d], ["-c", d + ",two"], ["-c", d + ",1,2"], ["-c" + d + ",1.5"], ["-c", d + ","], ["--chunk=" + d + ":2"], ["-d", "high"], ["-d", "1.0"], ["--deflate="], ["--def=x"], ["-x"], ["--de"], ["--unknown"],
                     ["--serial=1"], ["-sx"], ["-c"], ["-nd"], ["-ec"], ["-nsz"], ["-d", "2x"], ["-c", ",".join([d, "2", ""])], ["--s"], ["--no_histories"]])

def rank(argv, cwd, mpi, k, pipes):
    """the tool as process k of several (pipes: to the others): what it raised, which warnings it gave, how it asked for a communicator"""
    os.chdir(cwd)
    got = {"err": "", "msg": "", "warn": [], "serial": []}
    import asaptools.simplecomm as sc
    orig = sc.create_comm
    class Comm(sc.SimpleComm):
        def get_size(self): return len(pipes) + 1
        def get_rank(self): return k
        def is_manager(self): return k == 0
        def sync(self):
            if k == 0:
                for p in pipes: p.recv()
                for p in pipes: p.send(None)
            else:
                pipes[0].send(None)
                pipes[0].recv()
        def partition(self, data=None, func=None, involved=False, tag=0):
            if k: return pipes[0].recv()
            f = func if func else lambda *x: x[0][x[1]::x[2]]
            j = 0 if involved else 1
            for i, p in enumerate(pipes): p.send(f(data, i + 1 - j, len(pipes) + 1 - j))
            return f(data, 0, len(pipes) + 1) if involved else None
        def _no(self, *a, **kw): raise RuntimeError("not simulated")
        ration = collect = divide = allreduce = _no
    def create(serial=False, *a, **kw):
        got["serial"].append(bool(serial))
        if pipes and not serial: return Comm()
        if k: os._exit(0)
        return orig(serial=True if not mpi else serial)
    sc.create_comm = create
    with warnings.catch_warnings(record=True) as ws:
        warnings.simplefilter("always")
        try:
            from pyconform.cli import xconform
            xconform.main(argv)
        except SystemExit as e:
            got["err"] = "" if e.code in (0, None) else "SystemExit"
        except (EOFError, ConnectionError):
            got["err"] = "ended"  # with the process waited for
        except Exception as e:
            got.update(err=type(e).__name__, msg=str(e)[:300])
        got["warn"] = [[type(w.message).__name__, str(w.message)[:200]] for w in ws]
    return got

def fork(argv, cwd, mpi, t, n=1):
    """the tool, run by itself in n children"""
    links = [multiprocessing.Pipe() for _ in range(n - 1)]
    pids, outs = [], []
    for k in range(n):
        rd, wr = os.pipe()
        pid = os.fork()
        if pid == 0:
            try:
                signal.alarm(0)
                for f in [rd] + outs: os.close(f)
                for i, (a, b) in enumerate(links):
                    if k: a.close()
                    if i != k - 1: b.close()
                os.write(wr, json.dumps(rank(argv, cwd, mpi, k, [a for a, _ in links] if k == 0 else [links[k - 1][1]])).encode())
            finally:
                os._exit(0)
        os.close(wr)
        pids.append(pid); outs.append(rd)
    for a, b in links: a.close(); b.close()
    res = []
    try:
        for rd in outs:
            data = b""
            while True:
                b = os.read(rd, 65536)
                if not b: break
                data += b
            res.append(json.loads(data) if data else None)
    except BaseException:
        for pid in pids: os.kill(pid, signal.SIGKILL)
        raise
    finally:
        for rd in outs: os.close(rd)
        for pid in pids: os.waitpid(pid, 0)
    first = res[0] or {"err": "died", "msg": "", "warn": [], "serial": []}
    for x in res[1:]:
        if x is None:
            # one that is not needed because a serial run was asked for
            if first["serial"][:1] != [True] and not first["err"]: first["err"] = "died"
        else:
            if x["err"] not in ("", "ended") and first["err"] in ("", "ended"): first.update(err=x["err"], msg=x["msg"])
            first["warn"] += [w for w in x["warn"] if w[0] == "ValidationWarning"]
    return first

def user_functions(r, run):
    """some definitions use functions of modules: their specification says what these mean"""
    needs = set()
    real, model = [], []
    for v in run["vars"]:
        if v["kind"] == "def" and not v["axis"] and v["ast"]["t"] != "num" and r.random() < 0.5:
            m = r.choice(["twice", "thrice"])
            needs.add(m + ".py")
            real.append(dict(v, ast=fn(m, v["ast"])))
            model.append(dict(v, ast=op("*", v["ast"], num(2 if m == "twice" else 3))))
        else: real.append(v); model.append(v)
    return dict(run, vars=real), dict(run, vars=model), sorted(needs)

def drive(scn, d):
    r = random.Random(scn["seed"] + 7)
    out = []
    keep = flowrun.attr_json, flowrun.spec_dict
    spec0 = flowrun.spec_dict
    flowrun.attr_json = c18.norm
    try:
        for run, dd in P.runs(scn, d): out.append(one(r, run, dd, spec0))
    finally: flowrun.attr_json, flowrun.spec_dict = keep
    return out

def spread(r, run):
    """the variables over several input files"""
    nf = r.choice([1, 2, 2, 3])
    for v in run["inp"]:
        v["f"] = sorted(r.sample(range(nf), r.randint(1, nf))) if v["dims"] == [v["n"]] else [r.randrange(nf)]
        if r.random() < 0.3 and v["dims"] == [v["n"]]: v["f"] = list(range(nf))
    return nf

def one(r, run, dd, spec0):
    spread(r, run)
    real, model, needs = (run, run, []) if r.random() < 0.6 else user_functions(r, run)
    h = c18.decorate(r, real, False)
    # what decorate declared holds for the model as well
    model = dict(model, vars=[dict(w, ast=v["ast"]) for v, w in zip(model["vars"], real["vars"])])
    spec = c18._with(real, spec0)
    for v in real["vars"]:
        a = spec[v["n"]]["attributes"]
        h["vars"].append({"n": v["n"], "attrs": [{"k": k, "v": c18.norm(x)} for k, x in a.items()], "type": v["type"], "fill": [c18.norm(c18.np.dtype(v["ot"]).type(v["fillv"]))] if v.get("fillv") is not None else []})
    names = flowrun.write_inputs(run, dd)
    os.makedirs(os.path.join(dd, "in")); od = os.path.join(dd, "out"); os.makedirs(od); os.makedirs(os.path.join(dd, "m"))
    fs = sorted({f for v in run["inp"] for f in v["f"]})
    call = dict(zip(fs, r.sample(["a1.nc", "a2.nc", "b1.nc", "T.nc", "data.01.nc", "b12.nc"], len(fs))))
    for f, n in zip(fs, names): os.rename(n, os.path.join(dd, "in", call[f]))
    files = [{"p": list("../in/" + call[f]), "f": f} for f in fs]
    if r.random() < 0.15:
        open(os.path.join(dd, "in", "notes.txt"), "w").write("no data")
        files.append({"p": list("../in/notes.txt"), "f": -1})
    modules(os.path.join(dd, "m"))
    # a second specification, which writes other files
    alt = json.loads(json.dumps(spec, default=float))
    for v in alt.values():
        if "file" in v: v["file"]["filename"] = "alt_" + v["file"]["filename"]
    json.dump(spec, open(os.path.join(dd, "spec.json"), "w"), default=float)
    json.dump(alt, open(os.path.join(dd, "alt.json"), "w"), default=float)
    open(os.path.join(dd, "broken.json"), "w").write('{"x": ')
    # the command line
    parts = []
    w = r.random()
    std = ["../spec.json"] if w < 0.8 else ["../alt.json", "../spec.json"] if w < 0.86 else ["../spec.json", "../alt.json"] if w < 0.92 else r.choice([["../broken.json"], ["../nosuch.json"], []])
    for s in std: parts.append(spell(r, "stdfile", "f", s))
    def size(n): return r.choice(["%d", "%d", "%d", " %d", "+%d", "%d "]) % n
    for dm, n in run["chunks"]:
        if r.random() < 0.25: parts.append(spell(r, "chunk", "c", "%s,%s" % (dm, size(r.choice([1, 2, 3, 7])))))
        parts.append(spell(r, "chunk", "c", "%s,%s" % (dm, size(n))))
    odims = sorted({x for v in run["vars"] for x in v["dims"]})
    if odims and r.random() < 0.1: parts.append(spell(r, "chunk", "c", "%s,%d" % (r.choice(odims + ["nodim"]), r.choice([1, 2, 0, -3]))))
    if r.random() < 0.4: parts.append(spell(r, "deflate", "d", str(r.choice([0, 1, 5, 9]))))
    if r.random() < 0.2: parts.append(spell(r, "deflate", "d", str(r.choice([0, 1, 3, 9]))))
    if r.random() < 0.04: parts.append(spell(r, "deflate", "d", str(r.choice([-1, 10, 99]))))
    if odims and r.random() < 0.4:
        if r.random() < 0.8: parts.append(spell(r, "debug", None))
        for x in r.sample(odims, min(len(odims), 2)): parts.append(spell(r, "chunk", "c", "%s,%d" % (x, r.choice([1, 2, 3]))))
    for o, s, p in (("error", "e", 0.25), ("no_history", "n", 0.4), ("serial", "s", 0.5), ("debug", None, 0.1)):
        if r.random() < p: parts.append(spell(r, o, s))
    mods = [m for m in needs if r.random() < 0.9]
    if r.random() < 0.1: mods.append("idle.py")
    if r.random() < 0.05: mods.append(r.choice(["broken.py", "nosuch.py"]))
    for m in mods: parts.append(spell(r, "module", "m", "../m/" + m))
    bad = r.random() < 0.12
    if bad: parts.append(junk(r, odims))
    order = parts[:]; r.shuffle(order)
    order = [x for x in order if x not in [q for q in parts if q[0].lstrip("-")[:1] in ("f", "s") and "json" in "".join(q)]]
    fparts = [q for q in parts if "json" in "".join(q)]
    # repeated options keep their order
    where = sorted(r.randint(0, len(order)) for _ in fparts)
    for k, (i, q) in enumerate(zip(where, fparts)): order.insert(i + k, q)
    # flags of one letter may be joined
    if r.random() < 0.3:
        flags = [q for q in order if len(q) == 1 and len(q[0]) == 2 and q[0][1] in "ens"]
        if len(flags) > 1:
            i = order.index(flags[0])
            order = [q for q in order if q not in flags]
            order.insert(min(i, len(order)), ["-" + "".join(q[0][1] for q in flags)])
    w = r.random()
    some = [call[f] for f in fs if r.random() < 0.6]
    pats = (["../in/*.nc"] if w < 0.35 else ["../in/" + call[f] for f in fs] if w < 0.6 else ["../in/*"] if w < 0.68 else [r.choice(["../in/a*.nc", "../in/?1.nc", "../in/*1*", "../in/??.nc", "../*/*.nc"])] if w < 0.78
            else ["../in/" + x for x in some] if w < 0.9 else [])
    if r.random() < 0.12: pats.append(r.choice(["../in/none*.nc", "nothing.nc", "../in/a3.nc"]))
    if pats and r.random() < 0.06: pats.append(r.choice(pats))
    r.shuffle(pats)
    # the inputs come together
    bounds = [i for i in range(len(order) + 1)]
    i = r.choice([0, len(order), len(order), r.choice(bounds)])
    argv = [x for q in order[:i] for x in q] + pats + [x for q in order[i:] for x in q]
    if r.random() < 0.01: argv = ["-h"]
    t0 = datetime.datetime.utcnow().replace(microsecond=0)
    # several processes, unless a serial run is asked for
    n = 1 if any(q[0].startswith("--s") and not q[0].startswith("--st") or (q[0][:2] != "--" and "s" in q[0] and len(q) == 1) for q in order) or r.random() < 0.6 else r.choice([2, 2, 3])
    got = fork(argv, od, n == 1 and r.random() < 0.05, 60, n)
    obs = {"err": got["err"], "stage": "", "msg": got["msg"], "warn": got["warn"], "dmap": [], "sizes": []}
    flowrun.collect(obs, od, run, True)
    obs["serial"] = got["serial"][:1]
    obs["ranks"] = n
    c18.read(obs, dd, t0, datetime.datetime.utcnow(), real, h)
    hidden = dict(model)
    return {"kind": "cli", "argv": [list(x) for x in argv], "run": c18.bare(hidden), "hdr": h, "obs": obs, "loose": run["loose"], "files": files, "needs": needs, "mods": ["twice.py", "thrice.py", "idle.py"]}
