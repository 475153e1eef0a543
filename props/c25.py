"""C25: character data is written unchanged and padded to its declared length."""
import os, random, shutil
from lib import env, flowgen, flowprop as P, flowrun, idx as X
from lib.flowgen import var, op, num, fn, st, NOU, unit
MODULE = "Check_C25"
RULE = ("random conversions with character variables read from files and strings given in the specification: empty, single, short, full, with blanks and gaps; over one to three further dimensions, transposed, indexed, inverted, "
        "in chunks of every dimension, sharing a string length; and meaningless uses of characters")
REQUIRED_TAGS = ["chars", "strings_given", "strings_read", "padded", "given_padded", "single_characters", "shorter", "only_empty", "chars_inverted", "chars_transposed", "length_chunked", "chars_chunked", "chars_indexed", "chars_three_dims",
                 "chars_filler", "arithmetic", "units", "number_as_char", "char_as_number", "unlimited"]
F = {"p_dir": 0.5, "p_nocoord": 0.0, "p_bad": 0.0, "p_range": 0.05, "nvars": [1, 2], "p_skip": 0.02, "depth": 1, "p_data": 0.1}
def design(tier):
    return [{"module": "MC_Chars", "cfg": "MC_Chars.cfg" if tier == "quick" else "MC_Chars_thorough.cfg"}]
def scenarios(ck):
    return P.plan(ck, [("run", 240, F), ("run", 200, dict(F, p_chunk=1.0)), ("run", 40, dict(F, p_chunk=0.5, p_unlim=1.0))], [("run", 2500, F), ("run", 2500, dict(F, p_chunk=1.0)), ("run", 500, dict(F, p_chunk=0.5, p_unlim=1.0))])

ALPHA = "abcxyz XYZ019_.- "
def word(r, n, full=False):
    k = n if full else r.randint(0, n)
    w = [r.choice(ALPHA) for _ in range(k)]
    return w + [None] * (n - k)
def cells(ws): return [[0, 0] if c is None else [ord(c), 1] for w in ws for c in w]

class Chars(object):
    """adds character variables to a conversion"""
    def __init__(self, r, gen, run):
        self.r, self.g, self.run = r, gen, run
        self.size = dict(gen.size)
        self.nchar = r.randint(1, 5)
    def blank(self, n, **kw):
        v = self.g.blank(n, **kw)
        v["u"] = dict(NOU); v["u"]["blank"] = "?"; v["blank"] = "?"
        v["ot"] = "S1"; v["hidden"] = False
        return v
    def read(self, k):
        """an input variable"""
        r = self.r
        dims = [d for d in self.g.dims if r.random() < 0.6]
        if not dims and r.random() < 0.8: dims = [r.choice(self.g.dims)]
        r.shuffle(dims)
        m = 1
        for d in dims: m *= self.size[d]
        w = r.random()
        ws = [word(r, self.nchar, w < 0.2) for _ in range(m)]
        if w > 0.9: ws = [[None] * self.nchar] * m
        if w > 0.8 and self.nchar > 1 and m > 1: ws[0] = [None] + ["q"] * (self.nchar - 1)
        return {"n": "s%d" % k, "dims": dims + ["nch"], "shape": [self.size[d] for d in dims] + [self.nchar], "dt": "c", "nd": "S1", "un": {"n": "m", "ref": [], "cal": "", "has": r.random() < 0.05}, "pos": "", "c": cells(ws), "fam": "", "f": [0]}
    def index(self, v):
        r = self.r
        x, dims = [], []
        for d, n in zip(v["dims"], v["shape"]):
            w = r.random()
            if d == "nch":
                dims.append(d)
                x.append(X.FULL if w < 0.4 else X.sl(0, r.randint(1, n)) if w < 0.7 else X.sl(r.randrange(n), None) if w < 0.85 else X.sl(None, None, -1))
            elif w < 0.25: x.append(X.it(r.randint(-n, n - 1)))
            else:
                dims.append(d)
                x.append(X.FULL if w < 0.6 else X.sl(None, None, -1) if w < 0.95 else X.sl(0, max(n - 1, 1)))
        while x and x[-1] == X.FULL: x.pop()
        return x, dims
    def add(self):
        r, run = self.r, self.run
        ins = [self.read(k) for k in range(r.randint(1, 3))]
        run["inp"] += ins
        om = dict(self.g.omap, nch=r.choice(["strlen", "strlen", "nch"]))
        vs = []
        for k in range(r.randint(1, 3)):
            w = r.random()
            if w < 0.65:
                v = r.choice(ins)
                x, dims = self.index(v) if r.random() < 0.35 else ([], list(v["dims"]))
                od = [om[d] for d in dims[:-1]]
                if r.random() < 0.4: r.shuffle(od)
                e = var(v["n"], x)
                if r.random() < 0.06: e = r.choice([op("+", e, e), op("*", e, num(2)), op("-", e), op("**", e, num(1)), fn("up", e), fn("limit", e, above=num(1)), fn("max", e, st("nch")), fn("sum", e, st(dims[0])), op("+", var(self.g.inp[0]["n"]), e)])
                o = self.blank("c%d" % k, kind="def", ast=e, dims=od + [om[dims[-1]]])
            elif w < 0.92:
                dims = [d for d in self.g.dims if r.random() < 0.5] or [r.choice(self.g.dims)]
                m = 1
                for d in dims: m *= self.size[d]
                n = r.choice([1, self.nchar, self.nchar, max(self.nchar - 1, 1), self.nchar + 2])
                ws = [word(r, n) for _ in range(m)]
                if n > 1: ws[r.randrange(m)] = word(r, n, True)
                elif r.random() < 0.4: ws = [[None]] * m
                # a string cannot end in padding
                o = self.blank("c%d" % k, kind="data", dims=[om[d] for d in dims] + [r.choice([om["nch"], om["nch"], "len%d" % k])], shape=[self.size[d] for d in dims] + [n], c=cells(ws))
            elif w < 0.96:
                # a number declared as character
                v = r.choice(self.g.inp)
                if not v["dims"]: continue
                o = self.blank("c%d" % k, kind="def", ast=var(v["n"]), dims=[om[d] for d in v["dims"]])
            else:
                v = r.choice(ins)
                o = self.blank("c%d" % k, kind="def", ast=var(v["n"]), dims=[om[d] for d in v["dims"]]); o["ot"] = r.choice(["f8", "i4"])
            if r.random() < 0.03: o["u"] = dict(unit(r.choice(["m", "1", "K"])), blank="?")
            if r.random() < 0.12: o["fill"] = [[ord(r.choice("x_*?")), 1]]
            vs.append(o)
        main = [v["n"] for v in run["vars"] if v["kind"] == "def"]
        for v in vs:
            w = r.random()
            if w < 0.4: run["files"].append({"n": "h_%s.nc" % v["n"], "owner": v["n"], "meta": r.sample(main, min(len(main), r.choice([0, 0, 1])))})
            elif w < 0.75:
                f = r.choice(run["files"])
                if v["n"] not in f["meta"]: f["meta"] = f["meta"] + [v["n"]]
            elif w < 0.85:
                u = r.choice(run["vars"])
                if u["kind"] != "none": u["coords"] = u["coords"] + [v["n"]]
            run["vars"].append(v)
        r.shuffle(run["vars"]); r.shuffle(run["files"])
        for i, n in enumerate(sorted(v["n"] for v in run["vars"])):
            next(v for v in run["vars"] if v["n"] == n)["rank"] = i
        if self.g.o["p_chunk"] and r.random() < 0.4: run["chunks"] = run["chunks"] + [[om["nch"], r.randint(1, self.nchar + 1)]]
        elif self.g.o["p_chunk"] and r.random() < 0.02: run["chunks"] = run["chunks"] + [["nolen", 2]]
        r.shuffle(run["chunks"])
        return run

def drive(scn, d):
    r = random.Random(scn["seed"])
    out = []
    for k in range(scn["n"]):
        g = flowgen.Gen(random.Random(r.randint(0, 10 ** 9)), **scn["kw"])
        run = Chars(r, g, g.run()).add()
        dd = os.path.join(d, "r%d" % k); os.makedirs(dd)
        out.append(P.rec(run, flowrun.execute(run, dd)))
        shutil.rmtree(dd, ignore_errors=True)
    return out
