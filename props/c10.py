"""C10: definitions are parsed to the one expression the grammar gives them."""
import itertools, random
from fractions import Fraction
from lib import proj
MODULE = "Check_C10"
RULE = ("all token strings up to a length over the symbols of the grammar; random definitions with minimal or more parentheses, spaces and tabs anywhere between tokens, nested functions, "
        "keywords, strings, indices and slices; the same with characters removed, added, exchanged; random strings of characters; all in one process, valid and invalid ones mixed")
REQUIRED_TAGS = ["tokens", "random", "spaced", "mutated", "noise", "refused", "b+", "b-", "b*", "b/", "b**", "u-", "b<", "b==", "b>=", "function", "keyword", "string", "slice", "index", "num_i", "num_f", "num_b"]
LIMIT = 300
def design(tier):
    return [{"module": "MC_Grammar", "cfg": "MC_Grammar.cfg" if tier == "quick" else "MC_Grammar_thorough.cfg"}]

TOK = ["x", "2", "(", ")", "+", "-", "*", "/", "**", "<"]
TOK2 = ["x", "1.5", "(", ")", "[", "]", ":", ",", "-", "f", "'s'", "=", "3"]
def scenarios(ck):
    q = ck.quick
    for base, n, keep in ((TOK, 4 if q else 5, 1.0), (TOK2, 3 if q else 4, 1.0), (TOK, 6, 0.004 if q else 0.06), (TOK2, 6, 0.0006 if q else 0.01), (TOK, 9, None), (TOK2, 9, None)):
        if keep is None:
            for _ in range(3 if q else 40): yield {"s": "walk", "base": base, "n": n, "seed": ck.rng.randint(0, 10 ** 9), "count": 1500}
            continue
        for first in base: yield {"s": "tokens", "base": base, "first": first, "n": n, "keep": keep, "seed": ck.rng.randint(0, 10 ** 9)}
    for _ in range(16 if q else 300): yield {"s": "random", "seed": ck.rng.randint(0, 10 ** 9), "n": 150}

# ---- observation -----------------------------------------------------------------------------------------------
def num(x):
    if isinstance(x, bool): return {"t": "num", "v": [int(x), 1], "k": "b"}
    if isinstance(x, int): return {"t": "num", "v": proj.cell(x), "k": "i"}
    if isinstance(x, complex): return {"t": "num", "v": [1, 0], "k": "c"}
    return {"t": "num", "v": proj.cell(x), "k": "f"}
def ast(o):
    from pyconform import parsing as p
    if o is None: return {"t": "none"}
    if isinstance(o, str): return {"t": "str", "v": o}
    if isinstance(o, p.VarType): return {"t": "var", "n": o.key, "x": [ast(e) for e in o.ind]}
    if isinstance(o, p.OpType): return {"t": "op", "n": o.key, "a": [ast(e) for e in o.args]}
    if isinstance(o, p.FuncType): return {"t": "fn", "n": o.key, "a": [ast(e) for e in o.args], "kw": [{"n": k, "v": ast(v)} for k, v in o.kwds.items()]}
    if isinstance(o, slice): return {"t": "slice", "a": [ast(o.start), ast(o.stop), ast(o.step)]}
    if isinstance(o, (int, float, complex)): return num(o)
    return {"t": "other"}
REF = {"t": "refused"}
def parse(s):
    from pyconform.parsing import parse_definition
    try: return "", parse_definition(s)
    except Exception as e: return type(e).__name__, None
def observe(s):
    err, e = parse(s)
    if err: return {"s": list(s), "err": err, "e": REF, "re": REF}
    try: err2, e2 = parse(str(e))
    except Exception as x: err2 = type(x).__name__
    return {"s": list(s), "err": "", "e": ast(e), "re": REF if err2 else ast(e2)}
def short(it):
    return {"kind": "parse"}

# ---- random definitions ------------------------------------------------------------------------------------------
LEV = {"==": 1, "<": 2, ">": 2, "<=": 2, ">=": 2, "+": 3, "-": 3, "*": 4, "/": 4, "**": 6}
class Gen(object):
    def __init__(self, r): self.r = r
    def number(self):
        r = self.r
        return r.choice(["0", "1", "2", "3", "7", "10", "007", "1.5", "2.", ".5", "0.25", "1e2", "2.5e-1", "1E+1", "3e0", "0.1", "12.75", "1.e1", ".5e1"])
    def name(self): return self.r.choice(["x", "y", "T", "ta_1", "_v", "e5", "E", "mean", "abcDEF", "x2", "e", "u10"])
    def text(self):
        return self.r.choice(["'a b'", '"time"', "'it is \"x\"'", '"it\'s"', '"q\\"q"', "''", "' 1+2 '", "'\\\\'", '"m s-1"', "'a,b=(c)'"])
    def expr(self, d):
        """-> (tokens, level of the operator at the top, or 9)"""
        r = self.r
        w = r.random()
        if d <= 0 or w < 0.2: return ([self.number() if r.random() < 0.45 else self.name()], 9)
        if w < 0.58:
            o = r.choice(["+", "-", "*", "/", "**", "+", "-", "*", "/", "**", "<", ">", "<=", ">=", "=="])
            a, b = self.expr(d - 1), self.expr(d - 1)
            return (self.wrap(a, LEV[o], 0.75) + [o] + self.wrap(b, LEV[o] + 1, 0.75), LEV[o])
        if w < 0.7:
            a = self.expr(d - 1)
            return ([r.choice("--+")] + self.wrap(a, 6, 0.8), 5)
        if w < 0.85:
            args = [self.arg(d) for _ in range(r.randint(0, 3))]
            kws = [[k, "="] + self.arg(d) for k in r.sample(["a", "below", "k_2", "units"], r.choice([0, 0, 1, 2]))]
            out = [self.name(), "("]
            for i, a in enumerate(args + kws): out += ([","] if i else []) + a
            return (out + [")"], 9)
        out = [self.name(), "["]
        for i in range(r.randint(1, 3)):
            if i: out.append(",")
            if r.random() < 0.35: out += self.expr(d - 2)[0]
            else:
                part = lambda: [] if r.random() < 0.4 else self.expr(d - 2 if r.random() < 0.3 else 0)[0]
                out += part() + [":"] + part() + ([":"] + part() if r.random() < 0.5 else [])
        return (out + ["]"], 9)
    def arg(self, d): return [self.text()] if self.r.random() < 0.3 else self.expr(d - 1)[0]
    def wrap(self, e, level, p):
        """brackets where they are needed mostly, and elsewhere sometimes"""
        need = e[1] < level
        if (need and self.r.random() < p) or self.r.random() < 0.1: return ["("] + e[0] + [")"]
        return e[0]
def glue(r, toks, spaced):
    """tokens to text; spaces where two tokens would run together, elsewhere only if spaced"""
    out = ""
    for i, t in enumerate(toks):
        sep = ""
        if i:
            p = toks[i - 1]
            if (word(p[-1]) and word(t[0])) or (p[-1] + t[0] in ("**", "<=", ">=", "==", "<<")) or (p[-1] in "eE" and p[0] in "0123456789." and t[0] in "+-"): sep = " "
            elif p[-1] in "<>=" and t[0] == "=": sep = " "
        if spaced and r.random() < 0.5: sep = r.choice([" ", "  ", "\t", " \t "]) if not sep else sep + " "
        out += sep + t
    return (r.choice(["", " ", "\t"]) + out + r.choice(["", " "])) if spaced else out
def word(c): return c.isalnum() or c in "_."
CH = list("xye12.0+-*/()[],:='\" <>\t_f#%&;{}^!\\\n") 
def mutate(r, s):
    s = list(s)
    for _ in range(r.choice([1, 1, 2, 3])):
        w = r.random()
        i = r.randint(0, len(s)) if s else 0
        if w < 0.35 and s: del s[min(i, len(s) - 1)]
        elif w < 0.7: s.insert(i, r.choice(CH))
        elif len(s) > 1:
            i = r.randint(0, len(s) - 2); s[i], s[i + 1] = s[i + 1], s[i]
    return "".join(s)
def tame(s):
    """no towers of powers of large numbers, which take forever to compute"""
    return s.count("**") < 4

def drive(scn, d):
    r = random.Random(scn["seed"])
    out = []
    def put(kind, tag, items):
        for i in range(0, len(items), 60): out.append({"kind": kind, "tag": tag, "items": items[i:i + 60]})
    if scn["s"] == "tokens":
        items = []
        for rest in itertools.chain.from_iterable(itertools.product(scn["base"], repeat=k) for k in ([scn["n"] - 1] if scn["keep"] < 1 else range(scn["n"]))):
            if scn["keep"] < 1 and r.random() > scn["keep"]: continue
            s = " ".join((scn["first"],) + rest)
            if tame(s): items.append(observe(s))
        put("parse", "tokens", items)
    elif scn["s"] == "walk":
        # sequences that follow on: mostly operand operator operand, with brackets
        items = []
        for _ in range(scn["count"]):
            toks, depth, want = [], 0, True
            n = r.randint(5, scn["n"])
            while len(toks) < n:
                if want:
                    w = r.random()
                    if w < 0.6: toks.append(r.choice(["x", scn["base"][1], "3", "y"])); want = False
                    elif w < 0.8: toks.append("-")
                    else: toks.append(r.choice(["(", "f ("])); depth += 1
                elif depth and r.random() < 0.35: toks.append(")"); depth -= 1
                else: toks.append(r.choice(["+", "-", "*", "/", "**", "<", "=="])); want = True
            s = " ".join(toks + ([] if r.random() < 0.1 else (["x"] if want else []) + [")"] * depth))
            if tame(s): items.append(observe(s))
        put("parse", "tokens", items)
    else:
        g = Gen(r)
        plain, spaced, mut, noise = [], [], [], []
        for _ in range(scn["n"]):
            toks = g.expr(r.randint(1, 4))[0]
            s = glue(r, toks, False)
            if not tame(s): continue
            it = observe(s)
            it2 = observe(glue(r, toks, True))
            (plain if r.random() < 0.3 else spaced).append(dict(it, err2=it2["err"], e2=it2["e"]))
            m = mutate(r, s)
            if tame(m): mut.append(observe(m))
            if r.random() < 0.5: noise.append(observe("".join(r.choice(CH) for _ in range(r.randint(0, 8)))))
        put("parse", "random", plain); put("spaced", "spaced", spaced); put("parse", "mutated", mut); put("parse", "noise", noise)
    return out
