"""C26: function and operator names resolve to exactly one implementation."""
import ast, json, os, random, sys, traceback
from lib import env
MODULE = "Check_C26"
RULE = ("histories of processes of their own: generated modules (functions derived from the base, from each other across modules, from built-in functions, from two functions, with and without keys of their own, "
        "and classes that are no functions) and the modules of the repository are loaded in random order, some twice, as the command line does; between the loads names are looked up, listed, and used in conversions")
REQUIRED_TAGS = ["load", "find", "function", "operator", "list", "operators", "use", "function_unknown", "function_several", "function_found", "use_unknown", "use_several", "use_found", "inherited", "two_bases"]
def design(tier):
    return [{"module": "MC_Registry", "cfg": "MC_Registry.cfg" if tier == "quick" else "MC_Registry_thorough.cfg"}]
def scenarios(ck):
    for _ in range(56 if ck.quick else 1200): yield {"seed": ck.rng.randint(0, 10 ** 9)}

KEYS = ["f", "g", "h", "scale", "mean2", "f2"]
BUILTIN = {"sqrt": "SquareRootFunction", "mean": "MeanFunction", "sum": "SumFunction", "min": "MinFunction", "max": "MaxFunction", "up": "PositiveUpFunction", "down": "PositiveDownFunction",
           "chunits": "ChangeUnitsFunction", "limit": "LimitFunction", "rmunits": "RemoveUnitsFunction", "chdims": "RenameDimensionsFunction"}
REPO_MODS = ["commonfunctions", "atm_funcs", "dynvarmipfunctions", "CLM_landunit_to_CMIP6_Lut", "CLM_pft_to_CMIP6_vegtype"]

class World(object):
    """runs in a process of its own"""
    def __init__(self, r, d):
        self.r, self.d = r, d
        self.steps, self.made, self.const, self.nmod = [], [], {}, 0
        self.keys = r.sample(KEYS, r.randint(2, 5))

    def module(self):
        r = self.r
        m = "user%d" % self.nmod
        src = ["from pyconform.functions import *", "from pyconform import functions"]
        classes, local = [], []
        for i in range(r.randint(1, 3)):
            name = "K%d" % i
            own = r.random() < 0.8
            key = r.choice(self.keys + (list(BUILTIN) if r.random() < 0.08 else []) + ["own_%s_%d" % (m, i)]) if own else ""
            bases, texts = [], []
            n = 2 if own and r.random() < 0.3 else 1
            pool = self.made + local
            for _ in range(n):
                w = r.random()
                if w < 0.45 and pool:
                    b = r.choice(pool)
                    if b in bases: continue
                    bases.append(b)
                    if b in local: texts.append(b.split(".")[1])
                    else: src.append("from %s import %s as %s" % (b.split(".")[0], b.split(".")[1], b.replace(".", "_"))); texts.append(b.replace(".", "_"))
                elif w < 0.55:
                    k = r.choice(list(BUILTIN))
                    if "builtin:" + k in bases: continue
                    bases.append("builtin:" + k); texts.append("functions.find_function(%r)" % k if False else "functions." + BUILTIN[k])
                elif w < 0.65 and not bases: bases.append("object"); texts.append("object")
                elif "Function" not in bases: bases.append("Function"); texts.append("functions.Function")
            if not bases: bases, texts = ["Function"], ["functions.Function"]
            self.nconst = getattr(self, "nconst", 0) + 1
            src += ["class %s(%s):" % (name, ", ".join(texts))] + (["    key = %r" % key] if key else [])
            src += ["    def __init__(self, x):", "        self.arguments, self.keywords = (x,), {}", "        self._sumlike_dimensions = set()",
                    "    def __getitem__(self, index):", "        return self.arguments[0][index] + %d" % self.nconst]
            i2 = "%s.%s" % (m, name)
            self.const[self.nconst] = i2
            local.append(i2)
            classes.append({"id": i2, "key": key, "bases": bases})
        p = os.path.join(self.d, m + "_src.py")
        with open(p, "w") as f: f.write("\n".join(src) + "\n")
        return p, classes

    def load(self, path=None, classes=None):
        """the way the command line loads the modules it is given"""
        from pyconform.cli.xconform import load_source
        fresh = path is None
        if fresh: path, classes = self.module()
        name = "user%d" % self.nmod
        self.nmod += 1
        try: load_source(name, path)
        except Exception:      # two bases that cannot be combined, a missing library: what was defined before stays
            have = set(vars(sys.modules.get(name, object)))
            classes = [c for c in classes if c["id"].split(".")[1] in have]
        if fresh: self.made += [c["id"] for c in classes]
        self.steps.append({"a": "load", "classes": classes})
        self.last = (path, classes)
    def again(self):
        """the same file once more, as another module"""
        m = "user%d." % self.nmod
        old = {c["id"]: m + c["id"].split(".")[1] for c in self.last[1]}
        self.load(self.last[0], [{"id": old[c["id"]], "key": c["key"], "bases": [old.get(b, b) for b in c["bases"]]} for c in self.last[1]])
    def repo(self):
        p = os.path.join(env.REPO, "pyconform", "modules", self.r.choice(REPO_MODS) + ".py")
        out = []
        for n in ast.parse(open(p).read()).body:
            if not isinstance(n, ast.ClassDef): continue
            key = ""
            for s in n.body:
                if isinstance(s, ast.Assign) and getattr(s.targets[0], "id", "") == "key": key = ast.literal_eval(s.value)
            bs = [getattr(b, "id", getattr(b, "attr", "")) for b in n.bases]
            m = "user%d." % self.nmod
            inside = {c["id"].split(".")[1] for c in out}
            out.append({"id": m + n.name, "key": key, "bases": [b if b == "Function" else m + b if b in inside else "object" for b in bs]})
        self.load(p, out)

    def ident(self, c):
        if not isinstance(c, type): return "other"
        return "builtin:" + c.key if c.__module__ == "pyconform.functions" else c.__module__ + "." + c.__name__
    def operator_ident(self, c):
        for n, args in ((1, (6,)), (2, (6, 2))):
            try: v = c(*args)[None]
            except Exception: continue
            return {(1, -6): "-1", (2, 8): "+2", (2, 4): "-2", (2, 12): "*2", (2, 3): "/2", (2, 36): "**2"}.get((n, v), "other")
        return "other"
    def lookup(self):
        from pyconform import functions as F
        r = self.r
        w = r.random()
        if w < 0.2:
            k, n = r.choice(["+", "-", "*", "/", "**", "//", "<"]), r.choice([0, 1, 2, 2, 3])
            st = {"a": r.choice(["operator", "find"]), "key": k, "n": n, "err": "", "got": ""}
            try: st["got"] = self.operator_ident((F.find_operator if st["a"] == "operator" else F.find)(k, numargs=n or None))
            except Exception as e: st["err"] = type(e).__name__
        elif w < 0.28:
            st = {"a": "operators", "names": sorted(F.list_operators())}
        elif w < 0.4:
            st = {"a": "list", "names": sorted(set(F.list_functions()))}
        else:
            k = r.choice(self.keys + [c["key"] for s in self.steps if s["a"] == "load" for c in s["classes"] if c["key"]] * 2 + ["nosuch", "func", ""] + r.sample(list(BUILTIN), 2))
            st = {"a": r.choice(["find", "function"]), "key": k, "n": r.choice([0, 0, 0, 0, 1]), "err": "", "got": ""}
            if st["a"] == "function": st["n"] = 0
            try: st["got"] = self.ident(F.find_function(k) if st["a"] == "function" else F.find(k, numargs=st["n"] or None))
            except Exception as e: st["err"] = type(e).__name__
        self.steps.append(st)
    def use(self):
        from lib import flowrun, flowgen as G
        r = self.r
        pool = sorted({c["key"] for s in self.steps if s["a"] == "load" for c in s["classes"] if c["key"] and not c["key"] in BUILTIN and c["id"] in self.const.values()} | {"nosuch"})
        k = r.choice(pool)
        g = G.Gen(r)
        self.uses = getattr(self, "uses", 0) + 1
        d = os.path.join(self.d, "u%d" % self.uses); os.makedirs(d)
        v = g.blank("o", dims=[]); v.update(ast={"t": "fn", "n": k, "a": [G.var("x")], "kw": []}, ot="f8", u=dict(G.NOU, blank="?"))
        run = {"inp": [{"n": "x", "dims": [], "shape": [], "dt": "f", "un": {"n": "1", "ref": [], "cal": "", "has": True}, "pos": "", "c": [[0, 1]], "f": [0]}],
               "vars": [v], "files": [{"n": "o.nc", "owner": "o", "meta": []}]}
        o = flowrun.execute(run, d)
        st = {"a": "use", "key": k, "n": 0, "err": o["err"], "got": ""}
        if not o["err"]:
            f = [f for f in o["files"] if f["n"] == "o.nc"]
            st["got"] = self.const.get(f[0]["vars"][0]["c"][0][0], "other") if f and f[0]["vars"] else "nothing"
            # a copy of a module loaded again computes the same
            st["got"] = self.alias.get(st["got"], st["got"]) if hasattr(self, "alias") else st["got"]
        self.steps.append(st)
    def go(self):
        r = self.r
        self.steps.append({"a": "list", "names": sorted(set(__import__("pyconform.functions", fromlist=["x"]).list_functions()))})
        for _ in range(r.randint(2, 6)):
            w = r.random()
            if w < 0.12 and hasattr(self, "last") : self.again()
            elif w < 0.3: self.repo()
            else: self.load()
            for _ in range(r.randint(1, 4)): self.lookup()
            if r.random() < 0.7: self.use()
        for _ in range(6): self.lookup()
        self.use()
        return self.steps

def drive(scn, d):
    rd, wr = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(rd)
            try: out = [{"kind": "history", "steps": World(random.Random(scn["seed"]), d).go()}]
            except Exception: out = [{"kind": "crash", "detail": traceback.format_exc()[-3000:]}]
            with os.fdopen(wr, "w") as f: f.write(json.dumps(out))
        finally: os._exit(0)
    os.close(wr)
    with os.fdopen(rd) as f: s = f.read()
    os.waitpid(pid, 0)
    return json.loads(s) if s else [{"kind": "died", "detail": "child"}]
