"""C29: listed dependencies are exactly the input variables a definition needs."""
import contextlib, io, json, os, random, re, warnings
from lib import env
from props.c10 import Gen, glue, mutate, tame
MODULE = "Check_C29"
RULE = ("random definition files (comments, blank lines, junk, repeated names, spaces anywhere) and random specifications (definitions, data, neither; frequencies and realms) "
        "with random definitions, nested, indexed, with keywords and strings that look like names, some unparsable, some constants; all variables or some, unknown ones among them")
REQUIRED_TAGS = ["lines", "entries", "all", "asked", "how_deps", "how_none", "how_undefined", "nothing_needed", "unparsable", "several", "junk", "comment", "data"]
def design(tier):
    return [{"module": "MC_Listing", "cfg": "MC_Listing.cfg" if tier == "quick" else "MC_Listing_thorough.cfg"}]
def scenarios(ck):
    for _ in range(32 if ck.quick else 400): yield {"seed": ck.rng.randint(0, 10 ** 9), "n": 20}

NAMES = ["ta", "pr", "o3", "T_x", "clt", "zg500", "hus", "var1", "X"]
def definition(g, r):
    w = r.random()
    if w < 0.1: return r.choice(["1", "2.5*3", "-4", "(1)", "1e20"])
    if w < 0.14: return r.choice(["", "?", "T +", "f(T", "T..x", "mean(T, 'time'"])
    while True:
        s = glue(r, g.expr(r.randint(0, 4))[0], r.random() < 0.4)
        # a comment sign and an end of line mean something else in a file
        if "#" not in s and "\n" not in s and tame(s): break
    if r.random() < 0.12:
        s = mutate(r, s)
        if "#" in s or "\n" in s or not tame(s): s = "T"
    return s

def listing(argv):
    from pyconform.cli import vardeps
    o = io.StringIO()
    try:
        with contextlib.redirect_stdout(o): vardeps.main(argv)
    except BaseException as e:
        if type(e).__name__ == "Timeout": raise
        return type(e).__name__, o.getvalue()
    return "", o.getvalue()

def project(text, names):
    """the printed listing: lines <name>[ frequency]: ..., and the complete list"""
    out, total, junk, part = [], [], 0, 0
    for line in text.split("\n"):
        if line.startswith("Could not parse this line"): junk += 1
        elif line.startswith("Output Variable Dependencies"): part = 1
        elif line.startswith("Complete Specification"): part = 2
        elif part == 1 and line.strip():
            head, rest = line.split(":", 1)
            n = re.sub(r" \[[^\]]*\]$", "", head.strip())
            rest = rest.strip()
            if rest == "Not defined.": out.append({"n": n, "how": "undefined", "names": []})
            elif rest == "No dependencies.": out.append({"n": n, "how": "none", "names": []})
            else: out.append({"n": n, "how": "deps" if rest else "none", "names": rest.split()})
        elif part == 2 and line.strip(): total += line.split()
    return out, total, junk

def drive(scn, d):
    r = random.Random(scn["seed"])
    g = Gen(r)
    out = []
    for k in range(scn["n"]):
        defs = [(r.choice(NAMES), definition(g, r)) for _ in range(r.randint(0, 5))]
        if r.random() < 0.1: defs = [(n, r.choice(["1", "2*3"])) for n, _ in defs[:2]]
        p = os.path.join(d, "f%d" % k)
        rec = {"lines": [], "entries": []}
        want = []
        if r.random() < 0.5: want = [r.choice(NAMES + [n for n, _ in defs] * 2) for _ in range(r.randint(1, 4))]
        argv = ["-n", p] + (["-f"] if r.random() < 0.3 else []) + want
        if r.random() < 0.5:
            lines = []
            for n, s in defs:
                if r.random() < 0.15: lines.append(r.choice(["", "   ", "# only a comment = x", "#", "junk", "  junk here # c", "junk # c # d", "# # x = y", "\t"]))
                eq = r.choice(["=", " = ", "  =", "\t= "])
                lines.append(r.choice(["", " ", "\t"]) + n + eq + s + r.choice(["", "  ", " # remark", "# a=b", "\t#x", " # was: n # 2"]))
            open(p, "w").write("\n".join(lines) + r.choice(["", "\n"]))
            argv.insert(0, "-d")
            rec.update(src="lines", lines=[list(x) for x in lines])
        else:
            spec = {}
            for n, s in defs:
                spec[n] = {"attributes": {"units": "1"}}
                w = r.random()
                data = w < 0.12
                if data: spec[n]["definition"] = [1.0, 2.0]
                elif w < 0.9: spec[n]["definition"] = s
                if r.random() < 0.3: spec[n]["attributes"]["frequency"] = r.choice(["mon", "day"])
                if r.random() < 0.3: spec[n]["attributes"]["realm"] = "atmos"
                if r.random() < 0.1: del spec[n]["attributes"]
            json.dump(spec, open(p, "w"))
            rec.update(src="entries", entries=[{"n": n, "has": isinstance(v.get("definition"), str), "data": isinstance(v.get("definition"), list),
                                                "d": list(v["definition"]) if isinstance(v.get("definition"), str) else []} for n, v in spec.items()])
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            err, text = listing(argv)
        o, t, j = project(text, NAMES) if not err else ([], [], 0)
        out.append(dict(rec, kind="listing", want=want, err=err, out=o, total=t, junk=j))
    return out
