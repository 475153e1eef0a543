"""C21: time-sliced files are grouped in order without silent gaps."""
import os, random, shutil, contextlib, io
from fractions import Fraction as Fr
from lib import flowgen as G
MODULE = "Check_C21"
RULE = ("series of hours, days, months and years in all calendars, cut into files of any lengths, in several units, with and without bounds, in any order; "
        "with times, steps and files taken away, doubled or moved")
REQUIRED_TAGS = ["judged", "regular", "broken", "overlap", "gap_between", "gap_inside", "one_file", "many_files", "constant", "monthly", "yearly", "within_days", "with_bounds", "different_units",
                 "out_of_order", "without_alignment", "different_lengths", "short", "refused", "cal_gregorian", "cal_noleap", "cal_360_day", "cal_all_leap", "in_days", "in_hours", "in_minutes"]
def design(tier):
    return [{"module": "MC_Series", "cfg": "MC_Series.cfg" if tier == "quick" else "MC_Series_thorough.cfg"}]
def scenarios(ck):
    for _ in range(32 if ck.quick else 800): yield {"s": "series", "seed": ck.rng.randint(0, 10 ** 9), "n": 14}

CALS = ["standard", "gregorian", "noleap", "365_day", "360_day", "all_leap", "366_day", "proleptic_gregorian"]
def date(cal, y, m, d):
    import cftime
    return cftime.datetime(y, m, d, calendar=cal)
def days(cal, a, ref):
    """days from ref to the date a, exactly"""
    x = a - ref
    return Fr(x.days) + Fr(x.seconds, 86400)
def series(r, cal, total):
    """instants in days since a reference, and the end of the last step"""
    y0 = r.choice([1850, 1999, 2000, 1995, 2003])
    ref = date(cal, y0, 1, 1)
    kind = r.choice(["hours", "hours", "days", "months", "months", "years"])
    if kind == "hours": st = Fr(r.choice([1, 3, 6, 12]), 24)
    if kind == "days": st = Fr(r.choice([1, 1, 5, 10]))
    if kind in ("hours", "days"):
        o = Fr(r.randint(0, 800)) + (Fr(r.choice([0, 0, 12, 6]), 24))
        return kind, y0, [o + k * st for k in range(total + 1)]
    if kind == "months":
        m0, d = r.randint(0, 30), r.choice([1, 1, 1, 10, 15, 28])
        o = Fr(r.choice([0, 0, 12]), 24)
        return kind, y0, [days(cal, date(cal, y0 + (m0 + k) // 12, (m0 + k) % 12 + 1, d), ref) + o for k in range(total + 1)]
    m, d = r.randint(1, 12), r.choice([1, 1, 15, 28])
    return kind, y0, [days(cal, date(cal, y0 + k, m, d), ref) for k in range(total + 1)]

def scenario(r):
    cal = r.choice(CALS)
    n = r.choice([1, 2, 2, 3, 3, 4, 5])
    lens = [r.randint(3, 7) for _ in range(n)]
    if r.random() < 0.04: lens[r.randrange(n)] = r.choice([1, 2])
    kind, y0, ts = series(r, cal, sum(lens))
    bounds = r.random() < 0.4
    steps = list(zip(ts[:-1], ts[1:]))
    files, k = [], 0
    for m in lens: files.append(steps[k:k + m]); k += m
    w = r.random()
    if w < 0.35:
        i = r.randrange(n)
        what = r.choice(["drop_step", "drop_file", "move_file", "shift_step", "double_step", "double_file", "drop_end"])
        f = files[i]
        if what == "drop_step" and len(f) > 3: f.pop(r.randrange(len(f)))
        elif what == "drop_end" and len(f) > 3: f.pop(r.choice([0, -1]))
        elif what == "drop_file" and n > 1: files.pop(i)
        elif what == "move_file":
            s = (ts[1] - ts[0]) * r.choice([-3, -1, 1, 1, 2, 12]) if kind not in ("months", "years") else Fr(365 * r.choice([1, 2]))
            files[i] = [(a + s, b + s) for a, b in f]
        elif what == "shift_step":
            j = r.randrange(len(f)); s = (f[0][1] - f[0][0]) / r.choice([2, 3, 4])
            if s.denominator <= 1440: f[j] = (f[j][0] + s, f[j][1])
        elif what == "double_step": files.insert(r.randrange(len(files) + 1), list(f[-3:]))
        elif what == "double_file": files.append(list(f))
    r.shuffle(files) if r.random() < 0.7 else None
    base = r.choice(["days", "days", "hours", "minutes", "seconds"])
    same = r.random() < 0.6
    ref0 = [y0, 1, 1, r.choice([0, 0, 21600])]
    out = []
    for j, f in enumerate(files):
        un = base if same or r.random() < 0.5 else r.choice(["days", "hours", "minutes"])
        ref = list(ref0) if same or r.random() < 0.5 else [y0 - r.randint(0, 2), r.randint(1, 12), r.randint(1, 28), 0]
        q = {"days": 1, "hours": 24, "minutes": 1440, "seconds": 86400}[un]
        off = days(cal, date(cal, y0, 1, 1), date(cal, *ref[:3])) - Fr(ref[3], 86400)
        conv = lambda t: (t + off) * q
        lo, hi = [conv(a) for a, b in f], [conv(b) for a, b in f]
        times = [(a + b) / 2 if r.random() < 2 else a for a, b in zip(lo, hi)] if bounds and r.random() < 0.7 else (hi if bounds else lo)
        out.append({"n": "%s%d.nc" % (r.choice("abcxyz"), j), "un": {"n": un, "ref": ref, "cal": cal}, "times": [[x.numerator, x.denominator] for x in times],
                    "low": [[x.numerator, x.denominator] for x in lo] if bounds else [], "high": [[x.numerator, x.denominator] for x in hi] if bounds else []})
    return out

def write(f, path, r):
    from netCDF4 import Dataset
    with Dataset(path, "w", format=r.choice(["NETCDF4", "NETCDF3_CLASSIC"])) as nc:
        nc.createDimension("time", None); nc.createDimension("x", 2); nc.createDimension("bnd", 2)
        ints = all(d == 1 for _, d in f["times"] + f["low"] + f["high"]) and r.random() < 0.5
        t = nc.createVariable("time", "i4" if ints else "f8", ("time",))
        rf = f["un"]["ref"]
        t.units = "%s since %04d-%02d-%02d %02d:00:00" % (f["un"]["n"], rf[0], rf[1], rf[2], rf[3] // 3600)
        t.calendar = f["un"]["cal"]
        t[:] = [a / b for a, b in f["times"]]
        if f["low"]:
            nme = r.choice(["time_bnds", "time_bound"])
            t.bounds = nme
            b = nc.createVariable(nme, "i4" if ints else "f8", ("time", "bnd"))
            b[:, 0] = [x / y for x, y in f["low"]]; b[:, 1] = [x / y for x, y in f["high"]]
        v = nc.createVariable("v", "f4", ("time", "x")); v[:] = 1.0

def drive(scn, d):
    from pyconform import mapdates
    r = random.Random(scn["seed"])
    out = []
    for k in range(scn["n"]):
        files = scenario(r)
        dd = os.path.join(d, "s%d" % k); os.makedirs(dd)
        for f in files: write(f, os.path.join(dd, f["n"]), r)
        align = r.random() < 0.75
        obs = {"err": "", "order": [], "counts": [], "error": 0, "msg": ""}
        try:
            with contextlib.redirect_stdout(io.StringIO()):
                o, c, e = mapdates.get_files_in_order([os.path.join(dd, f["n"]) for f in files], **({} if align and r.random() < 0.5 else {"alignment": align}))
            obs.update(order=[os.path.basename(x) for x in o], counts=[int(x) for x in c], error=int(e))
        except Exception as e: obs.update(err=type(e).__name__, msg=str(e)[:100])
        shutil.rmtree(dd, ignore_errors=True)
        for f in files: f.pop("high")
        out.append({"kind": "series", "files": files, "align": align, "obs": obs})
    return out
