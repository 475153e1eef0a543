"""Projection of observed values to the specification's values."""
import math, re
from fractions import Fraction
import numpy as np

IMAX = 2 ** 31 - 1

def frac_json(f):
    if abs(f.numerator) > IMAX or f.denominator > IMAX: return [1, 0]
    return [f.numerator, f.denominator]

def cell(x, maxden=10 ** 6, rel=1e-9, absol=1e-9):
    """float -> [n, d]: the rational with a small denominator that the float stands for"""
    if x is np.ma.masked: return [0, 0]
    if isinstance(x, (int, np.integer)):
        return [int(x), 1] if abs(int(x)) <= IMAX else [1, 0]
    x = float(x)
    if math.isnan(x) or math.isinf(x): return [9, -1]
    # the smallest denominator within what rounding leaves open
    for den in (10 ** 3, 10 ** 4, 10 ** 5, 2 * 10 ** 5, maxden):
        f = Fraction(x).limit_denominator(min(den, maxden))
        if abs(float(f) - x) <= 2e-15 * abs(x): break
    if abs(float(f) - x) > max(absol, rel * abs(x)):
        # no small denominator: keep an unmistakable value near it
        f = Fraction(x).limit_denominator(10 ** 9)
        while abs(f.numerator) > IMAX: f = Fraction(x).limit_denominator(max(1, f.denominator // 1000)) if f.denominator > 1 else Fraction(0)
        if f.denominator <= maxden: return [7, -1]
    if abs(f.numerator) > IMAX: return [1, 0]
    return [f.numerator, f.denominator]

def coarse(x):
    """a value that carries single precision, near it"""
    x = float(x)
    if math.isnan(x) or math.isinf(x): return [9, -1]
    f = Fraction(x).limit_denominator(max(1, min(10 ** 5, int(2e9 / max(1.0, abs(x))))))
    return frac_json(f)

def cells(arr, dt=None, loose=False):
    """masked array -> list of cells in row-major order; float32 data carries fewer digits"""
    a = np.ma.asarray(arr)
    dt = np.dtype(dt or a.dtype)
    m = np.ma.getmaskarray(a).ravel()
    d = np.ma.getdata(a).ravel()
    if dt.kind in "iub":
        return [[0, 0] if k else cell(int(v)) for v, k in zip(d, m)]
    if loose:
        return [[0, 0] if k else coarse(v) for v, k in zip(d, m)]
    if dt.itemsize == 4:
        return [[0, 0] if k else cell(v, 1000, 4e-6, 4e-6) for v, k in zip(d, m)]
    return [[0, 0] if k else cell(v) for v, k in zip(d, m)]

BASE = ["m", "kg", "s", "K", "mol", "rad"]
def _num(s):
    x = float(s)
    f = Fraction(s)
    # udunits prints 15 digits
    for den in (10 ** 3, 10 ** 5, 10 ** 7, 10 ** 9):
        g = Fraction(x).limit_denominator(den)
        if g != 0 and abs(float(g) - x) <= 4e-15 * abs(x): return g
    g = 1 / Fraction(1 / x).limit_denominator(10 ** 6) if x else Fraction(0)
    if g and abs(float(g) - x) <= 4e-15 * abs(x): return g
    return f

def unit(u, strict=False):
    """cf_units.Unit (or string) -> unit of the specification"""
    from cf_units import Unit
    if not isinstance(u, Unit): u = Unit(u)
    out = {"t": "u", "k": [1, 1], "o": [0, 1], "e": [0] * 6, "ref": [], "cal": ""}
    if u.is_unknown(): out["t"] = "?"; return out
    if u.is_no_unit(): out["t"] = "n"; return out
    d = u.definition
    m = re.match(r"^(\(.*\)|\S+) @ (\d{8})T(\d{2})(\d{2})(\d{2})?(?:\.\d+)? UTC$", d)
    if m:
        if u.origin is None: out["t"] = "x"; return out
        d = m.group(1)
        if d[0] == "(": d = d[1:-1]
        y, mo, da = int(m.group(2)[:4]), int(m.group(2)[4:6]), int(m.group(2)[6:])
        # udunits normalises the date in its own calendar: take the date of the origin itself
        r = re.search(r"since\s+(\d+)-(\d+)-(\d+)(?:[ T](\d+):(\d+)(?::(\d+))?)?", u.origin)
        if r:
            g = [int(x) if x else 0 for x in r.groups()]
            out["ref"] = [g[0], g[1], g[2], g[3] * 3600 + g[4] * 60 + g[5]]
        else:
            out["ref"] = [y, mo, da, int(m.group(3)) * 3600 + int(m.group(4)) * 60 + int(m.group(5) or 0)]
        out["cal"] = u.calendar or ""
    elif " @ " in d:
        d, off = d.split(" @ ")
        out["o"] = frac_json(_num(off))
    k = Fraction(1)
    for tok in d.strip().split(" "):
        for t in tok.split(".") if not re.match(r"^-?[\d.]+(e[+-]?\d+)?$", tok) else [tok]:
            if re.match(r"^-?[\d.]+(e[+-]?\d+)?$", t):
                k *= _num(t)
                continue
            mm = re.match(r"^([A-Za-z]+)(-?\d+)?$", t)
            if not mm or mm.group(1) not in BASE:
                if strict: raise ValueError("unit %r: %r" % (u, d))
                out["t"] = "x"; return out
            out["e"][BASE.index(mm.group(1))] += int(mm.group(2) or 1)
    out["k"] = frac_json(k)
    return out
