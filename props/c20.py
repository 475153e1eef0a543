"""C20: date ranges in file names are the first and last times in the file."""
import os, random, shutil
from lib import flowprop as P, flowrun, flowgen as G
MODULE = "Check_C20"
RULE = ("random conversions with templates in file names (none, one, several, malformed), time axes in all calendars, units, reference years from 1 to 2000, lengths and directions, "
        "and every way of identifying the time variable, alone and with several candidates")
REQUIRED_TAGS = ["name", "kept", "refused", "misnamed", "dated", "explicit", "explicit_hidden", "explicit_among_others", "time_among_others", "not_by_name", "not_by_units", "by_standard_name", "by_axis", "by_units",
                 "several_templates", "early_years", "times_of_day", "one_time", "reversed_times", "cal_standard", "cal_noleap", "cal_360_day", "cal_all_leap", "cal_proleptic_gregorian",
                 "per_day_1", "per_day_24", "per_day_1440", "per_day_86400", "converted_times", "given_times", "several_dated_files"]
F = {"p_range": 0.1, "p_bad": 0.0, "depth": 0, "nvars": [1, 3], "p_files": 0.5, "p_meta": 0.3, "p_skip": 0.05, "p_unit": 0.3, "p_dir": 0.4, "p_data": 0.2, "p_nocoord": 0.05}
def design(tier):
    return [{"module": "MC_Dates", "cfg": "MC_Dates.cfg" if tier == "quick" else "MC_Dates_thorough.cfg"}]
def scenarios(ck):
    return P.plan(ck, [("dates", 330, F)], [("dates", 9000, F)])

CALS = ["standard", "noleap", "360_day", "all_leap", "proleptic_gregorian", "365_day", "366_day", "gregorian"]
def year(r, cal): return r.choice([1850, 2000, 1999, 1600 + r.randint(1, 500)] + ([1, 1, 14, 850, 250] if cal not in ("standard", "gregorian", "") else []))
def values(r, n, un, spread):
    k = {"days": r.choice([1, 1, 30, 365]), "hours": r.choice([1, 6, 24]), "minutes": r.choice([1, 30, 1440]), "seconds": r.choice([1, 60, 21600])}[un]
    den = r.choice([1, 1, 2, 4, 8]) if un in ("days", "hours") else 1
    c = sorted(r.sample(range(-spread, spread), n))
    return [[x * k, den] for x in c]
def red(c): return [[a // G.g(a, b), b // G.g(a, b)] for a, b in c]
PART = ["%Y", "%Y%m", "%Y%m%d", "%Y%m%d%H", "%Y%j", "%Y-%m", "%H%M%S", "%Y_%m_%d", "%d.%m.%Y", "y%Yx", "%Y%m%d%H%M%S", "", "%H", "%j"]
def template(r):
    w = r.random()
    a, b = r.choice([p for p in PART if "-" not in p]), r.choice([p for p in PART if "-" not in p])
    if w < 0.78: return "{%s-%s}" % (a, a if r.random() < 0.5 else b)
    if w < 0.9: return "{%s-%s}_{%s-%s}" % (a, b, b, a)
    return r.choice(["{%Y%m", "{%Y}", "{%Y-%m-%d}", "{%Y-%Y}_{%m", "{}", "{%Y-%Y}{%j}"])
def scenario(r, F):
    for _ in range(100):
        run = G.Gen(random.Random(r.randint(0, 10 ** 9)), **F).run()
        if any(v["n"] == "time" for v in run["inp"]): break
    t = next(v for v in run["inp"] if v["n"] == "time")
    n = t["shape"][0]
    cal = r.choice(CALS)
    un = r.choice(["days", "days", "hours", "minutes", "seconds"])
    ref = [year(r, cal), r.randint(1, 12), r.randint(1, 28), r.choice([0, 0, 0, 21600, 43200])]
    t["un"] = {"n": un, "ref": ref, "cal": cal if r.random() < 0.9 or cal not in ("standard", "gregorian") else ""}
    desc = t["c"] != sorted(t["c"])
    t["c"] = red(values(r, n, un, 40))
    if desc: t["c"].reverse()
    std = []
    def timeunits(full):
        w = r.random()
        y = max(ref[0] + r.randint(-3, 3), 1 if cal not in ("standard", "gregorian", "") else 1601)
        if w < 0.3 or (full and w < 0.6): return {"has": True, "n": r.choice(["days", "hours", "minutes", "seconds"]), "ref": [y, r.randint(1, 12), r.randint(1, 28), r.choice([0, 43200])], "cal": cal, "full": r.random() < 0.3}
        if w < 0.6 or full: return {"has": True, "n": un, "ref": ref, "cal": t["un"]["cal"]}
        if w < 0.7: return {"has": True, "n": r.choice(["days", "hours"]), "ref": [], "cal": ""}
        return G.unit("") if w < 0.85 else dict(G.NOU)
    times = []
    for v in run["vars"]:
        if v["kind"] == "def" and v["ast"].get("n") == "time" and v["ast"]["t"] == "var":
            v["u"] = timeunits(False); v["u"]["blank"] = v["blank"]; v["ot"] = "f8"
            if r.random() < 0.35: v["axis"] = False; v["dir"] = ""
            times.append(v)
    # more variables of times
    if times and len(times[0]["dims"]) == 1 and r.random() < 0.5:
        o = times[0]
        names = [v["n"] for v in run["vars"]] + [v["n"] for v in run["inp"]]
        for nme in r.sample(["time1", "time2", "_T", "_time", "reft", "clock", "time"], r.randint(1, 2)):
            if nme in names: continue
            w = G.Gen(r).blank(nme)
            w["dims"] = list(o["dims"]); w["ot"] = "f8"; w["hidden"] = nme[0] == "_"; w["blank"] = "?"
            w["ast"] = G.var("time") if r.random() < 0.6 else G.op("+", G.var("time"), G.num(1)) if False else G.var("time")
            w["u"] = timeunits(r.random() < 0.5)
            if r.random() < 0.5:
                w["kind"] = "data"; w["shape"] = [n]; w["u"] = timeunits(True)
                w["c"] = red(values(r, n, w["u"]["n"], 40))
            w["u"]["blank"] = "?"
            run["vars"].append(w); times.append(w)
        r.shuffle(run["vars"])
        for i, nme in enumerate(sorted(v["n"] for v in run["vars"])): next(v for v in run["vars"] if v["n"] == nme)["rank"] = i
    for v in times:
        if r.random() < 0.25: v["attrs"] = [["standard_name", "time"]]; std.append(v["n"])
    names = []
    for f in run["files"]:
        if r.random() < 0.85: f["n"] = f["n"].replace(".nc", r.choice(["_", ".", "/x"]) + template(r) + ".nc")
        tv = ""
        if r.random() < 0.25: tv = r.choice(times)["n"] if times and r.random() < 0.85 else r.choice(run["vars"])["n"]
        if tv: f["tvar"] = tv
        names.append({"n": f["n"], "chars": list(f["n"]), "tvar": tv})
    return run, names, std

def drive(scn, d):
    r = random.Random(scn["seed"])
    out = []
    for k in range(scn["n"]):
        run, names, std = scenario(r, scn["kw"])
        dd = os.path.join(d, "r%d" % k); os.makedirs(dd)
        obs = flowrun.execute(run, dd)
        shutil.rmtree(dd, ignore_errors=True)
        for f in obs["files"]: f["vars"] = [v["n"] for v in f["vars"]]
        out.append({"kind": "run", "run": run, "obs": obs, "names": names, "std": std, "taxis": [v["n"] for v in run["vars"] if v["axis"] and v.get("axisname") == "T"], "warned": obs["datewarn"], "loose": False})
    return out
