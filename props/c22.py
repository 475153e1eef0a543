"""C22: generated specifications join definitions and tables faithfully."""
import contextlib, io, json, os, random, re, shutil
from lib import env
MODULE = "Check_C22"
RULE = ("random definition files (sections of tables and coordinates in any order and repeated, comments that look like headers, input files after a comment sign, junk), "
        "random global attributes in one or several text and JSON files (blank ones, variants, parents, grids), random tables in CMOR form (names shared between tables, scalars, "
        "generic levels, requested values), with and without lists of variables")
REQUIRED_TAGS = ["test_output", "missing", "several_tables", "user_list", "unknown", "defined_in_another_table", "name_in_two_sections", "defined_twice", "input_files", "scalar", "requested_axis",
                 "axis_from_section", "axis_undefined", "similar_realm_only", "realms", "similar_realms", "filled", "external", "no_parent", "parent", "grids", "info", "variant",
                 "several_attribute_files", "header_in_comment"]
def design(tier):
    return [{"module": "MC_MipSpec", "cfg": "MC_MipSpec.cfg" if tier == "quick" else "MC_MipSpec_thorough.cfg"}]
def scenarios(ck):
    for _ in range(30 if ck.quick else 400): yield {"seed": ck.rng.randint(0, 10 ** 9), "n": 12}

VARS = ["tas", "pr", "ta", "zg", "hus", "clt", "orog"]
AXES = ["time", "time1", "latitude", "longitude", "plev3", "alevel", "height2m", "landUse", "typebare"]
REALMS = ["atmos", "land", "landIce", "ocean", "seaIce", "atmosChem"]
TABLES = ["Amon", "day", "Lmon", "fx", "A6hr"]
FREQ = {"Amon": ["mon", "monC", "monPt"], "day": ["day"], "Lmon": ["mon", "yr"], "fx": ["fx", "dec"], "A6hr": ["6hr", "6hrPt", "3hr", "1hrCM", "other"]}
FILL = "__FILL__"
def enc(v):
    if isinstance(v, str): return v
    if isinstance(v, list): return "#list " + " ".join(enc(x) for x in v)
    return "#num " + repr(v)
def pairs(d): return [[k, enc(v)] for k, v in d.items()]

def table(r, tid):
    realm = r.sample(REALMS, r.choice([1, 1, 1, 2]))
    if r.random() < 0.15: realm = ["landIce", "land"]
    head = {"table_id": r.choice(["Table ", ""]) + tid, "realm": " ".join(realm), "frequency": r.choice(FREQ[tid])}
    if r.random() < 0.6: head["data_specs_version"] = r.choice(["01.00.30", "1"])
    if r.random() < 0.2: head["activity_id"] = "CMIP"
    if r.random() < 0.3: head["product"] = "model-output"
    generic = []
    if r.random() < 0.4: generic = ["alevel"]; head["generic_levels"] = " ".join(generic)
    axes = []
    for a in AXES:
        at, req, rt, ty = {}, {"k": "none", "w": []}, "", r.choice(["double", "double", "real", "character", "integer", ""])
        if r.random() < 0.7: at["units"] = r.choice(["1", "m", "degrees_north", "days since ?", ""])
        if r.random() < 0.4: at["axis"] = r.choice(["X", "Y", ""])
        if r.random() < 0.3: at["long_name"] = a + " of " + tid
        w = r.random()
        if w < 0.15:
            xs = [r.choice(["0.5", "1", "850.", "-3e2"]) for _ in range(r.randint(1, 3))]
            rt, req = " ".join(xs), {"k": "list", "w": [enc(float(x)) for x in xs]}
        elif w < 0.25: rt, req = "bare soil", {"k": "list", "w": ["bare", "soil"]}
        elif w < 0.35:
            xs = r.sample([1, 2.5, 4, 1000.0], r.randint(1, 3)); rt, req = xs, {"k": "list", "w": [enc(x) for x in xs]}
        axes.append({"n": a, "at": at, "type": ty, "req": req, "reqtext": rt})
    vs = []
    for n in r.sample(VARS, r.randint(1, 5)):
        dims = [] if r.random() < 0.12 else r.sample(AXES, r.randint(1, 4))
        at = {}
        for k in ("units", "standard_name", "long_name", "cell_methods", "positive"):
            if r.random() < 0.5: at[k] = r.choice(["K", "%s of %s in %s" % (k, n, tid), "", "up"])
        if r.random() < 0.2: at["valid_min"] = r.choice([0, -1.5])
        cm = r.choice(["", "", "area: areacella", "area: areacello", "area: areacello volume: volcello", "area: areacellr"])
        vs.append({"n": n, "dims": dims, "at": at, "type": r.choice(["real", "double", "float", "integer", "character", "", "None", "int"]), "requested": "x + 1" if r.random() < 0.05 else "", "measures": cm})
    return {"id": tid, "realm": realm, "freq": head["frequency"], "head": head, "generic": generic, "axes": axes, "vars": vs}

def cmor(r, t):
    ve = {}
    for v in t["vars"]:
        e = dict(v["at"], dimensions=" ".join(v["dims"]), cell_measures=v["measures"])
        if v["type"] or r.random() < 0.5: e["type"] = v["type"]
        if v["requested"]: e["requested"] = v["requested"]
        ve[v["n"]] = e
    ae = {}
    for a in t["axes"]:
        if a["n"] in t["generic"] and r.random() < 0.7: continue
        e = dict(a["at"])
        if a["type"] or r.random() < 0.5: e["type"] = a["type"]
        if a["reqtext"]: e["requested"] = a["reqtext"]
        ae[a["n"]] = e
    return {"Header": t["head"], "variable_entry": ve, "axis_entry": ae}

def deffile(r, tables):
    blocks = []
    for t in TABLES:
        if r.random() < (0.85 if t in [x["id"] for x in tables] else 0.4): blocks.append(("TABLE :", t, r.sample(VARS, r.randint(0, 6))))
    if blocks and r.random() < 0.3: blocks.append(("TABLE :", r.choice(blocks)[1], r.sample(VARS, 2)))
    for x in REALMS:
        if r.random() < 0.55: blocks.append(("Coords:", x, r.sample(AXES, r.randint(1, 7))))
    r.shuffle(blocks)
    if not blocks: blocks = [("TABLE :", "Amon", ["tas"])]
    lines = []
    for head, name, vs in blocks:
        bar = r.random() < 0.7
        if bar: lines.append("#" * r.randint(1, 12))
        lines.append(r.choice(["#  ", "# ", "#", "##  "]) + r.choice([head, head.replace(" ", ""), head.replace(":", " :")]) + r.choice([" ", ""]) + name + r.choice(["", " "]))
        if bar: lines.append("####")
        vs = vs + ([r.choice(vs)] if vs and r.random() < 0.2 else [])
        for n in vs:
            d = r.choice(["T", "vinterp(T, lev=plev)", "A + B", "f(x, k=2)", "%s_%s" % (n.upper(), name), "T[0]"])
            tail = r.choice(["", "", "", " # *.h0.*.nc", "#in/T.nc", " # a # b", " # see TABLE : 3 for more", " # as in Coords: land", "# TABLE : day", " # TABLE", "# T=2"])
            lines.append(r.choice(["", " "]) + n + r.choice(["=", " = "]) + d + tail)
            if r.random() < 0.08: lines.append(r.choice(["", "  ", "junk", "#x=TS", "# only TABLE 3", "# Coords are above", "#TABLES : Amon"]))
    return "\n".join(lines) + "\n"

def attributes(r, realms):
    """texts of global attributes, and what the numbers in them are"""
    g = {"activity_id": r.choice(["CMIP", "DAMIP", FILL]), "external_variables": r.choice([FILL, FILL, "given"]), "realm": r.choice([FILL] * 4 + ["land"]), "variable_id": r.choice([FILL, FILL, FILL, "mine"]),
         "netcdf_type": r.choice(["NETCDF4", "NETCDF4_CLASSIC", "NETCDF3_CLASSIC", "NETCDF3_64BIT_OFFSET", "NETCDF3_64BIT_DATA"]), "mip_era": "CMIP6", "source_id": "CESM2"}
    p = {"indices": [], "noparent": False, "child": "", "parent": "", "parent_activity": False, "grids": []}
    if r.random() < 0.15: del g["external_variables"]
    for k, xs in [("institution_id", ["NCAR"]), ("experiment_id", ["historical"]), ("experiment", ["historical run", FILL]), ("sub_experiment_id", ["none"]), ("data_specs_version", [FILL, "01"]), ("frequency", [FILL, FILL, "mon"]),
                  ("table_id", [FILL, FILL, "T0"]), ("tracking_id", [FILL]), ("creation_date", [FILL]), ("grid_label", ["gn"]), ("contact", ["me@x.y"]), ("product", [FILL, "model"]), ("comment", ["", "text with = sign"]),
                  ("further_info_url", [FILL, "http://x"]), ("parent_variant_label", [FILL, "r1i1p1f1"]), ("parent_experiment_id", [FILL])]:
        if r.random() < 0.5: g[k] = r.choice(xs)
    if g["netcdf_type"].startswith("NETCDF4"):
        if r.random() < 0.5: g["compression"] = r.choice(["2", "5"])
        if r.random() < 0.4: g["shuffle"] = "on"
    if r.random() < 0.5:
        p["indices"] = [r.randint(1, 12) for _ in range(4)]
        if r.random() < 0.75: g["variant_label"] = "r%di%dp%df%d" % tuple(p["indices"])
        else: g.update(zip(["realization_index", "initialization_index", "physics_index", "forcing_index"], p["indices"]))
    w = r.random()
    if w < 0.4:
        for k in ("parent_mip_era", "parent_source_id", "parent_time_units"):
            if r.random() < 0.7: g[k] = FILL
        p["noparent"] = w < 0.2
        g["branch_method"] = "no parent" if p["noparent"] else r.choice(["standard", "branch at year 1"])
        g["parent_activity_id"] = "no parent" if p["noparent"] else r.choice(["CMIP", "x", ""])
        p["parent_activity"] = len(g["parent_activity_id"]) > 2
        for k, q in (("branch_time_in_child", "child"), ("branch_time_in_parent", "parent")):
            if r.random() < 0.7:
                x = r.choice([0.0, 56575.0, 365.5])
                g[k] = r.choice(["%r", "%rD0"]) % x
                p[q] = enc(x)
                if not p["noparent"] and r.random() < 0.2: g[k], p[q] = r.choice([("laterD0", "later"), (FILL, ""), ("", "")])
    elif w < 0.7:
        for k in ("parent_mip_era", "parent_source_id", "branch_time_in_child", "branch_time_in_parent"):
            if r.random() < 0.5: g[k] = r.choice([FILL, "something"])
    if r.random() < 0.5:
        g["grid"] = r.choice([FILL, "own"])
        if r.random() < 0.8:
            cut = r.randint(1, len(REALMS) - 1); sh = r.sample(REALMS, len(REALMS)); gs = [sh[:cut], sh[cut:]]
            if r.random() < 0.3: gs = gs[:1]
            p["grids"] = [{"realms": x, "text": "native grid %d" % i} for i, x in enumerate(gs)]
            g["grids"] = ";".join(r.choice(["", " "]) + ",".join(x) + ":native grid %d" % i for i, x in enumerate(gs))
    return g, p

def write_globals(r, d, g, p):
    ks = list(g); r.shuffle(ks)
    parts = [ks] if r.random() < 0.6 else [ks[:len(ks) // 2], ks[len(ks) // 2:] + ks[:2]]
    out, names = [], []
    for i, part in enumerate(parts):
        if r.random() < 0.5 and not any(not isinstance(g[k], str) for k in part):
            f = os.path.join(d, "ga%d.ga" % i)
            lines = []
            for k in part:
                v = g[k]
                if v == "": v = FILL
                # a text cannot say that an attribute is empty
                lines.append(k + r.choice(["=", " = ", "= "]) + ("" if v == FILL else v) + r.choice(["", "", " # remark", "  "]))
                if r.random() < 0.1: lines.append(r.choice(["", "# comment", "#  branch_method", "# TABLE : x"]))
            open(f, "w").write("\n".join(lines))
            out.append({"kind": "text", "lines": [list(x) for x in lines], "pairs": []})
        else:
            f = os.path.join(d, "ga%d.json" % i)
            js = {k: (None if g[k] == "" and r.random() < 0.5 else g[k]) for k in part}
            json.dump(js, open(f, "w"))
            out.append({"kind": "json", "lines": [], "pairs": [[k, enc(v or "")] for k, v in js.items()]})
        names.append(f)
    return out, ",".join(names)

def entry(n, e):
    f = e.get("file")
    d = e.get("definition")
    o = {"n": n, "dims": e["dimensions"], "dt": e.get("datatype", ""), "glob": e.get("input_glob", "").strip(), "at": pairs(e["attributes"]),
         "def": {"k": "none", "w": []} if d is None else {"k": "text", "w": [d]} if isinstance(d, str) else {"k": "list", "w": [enc(x) for x in d]}, "file": f is not None,
         "fname": "", "format": "", "compression": "", "shuffle": "", "fat": []}
    if f is not None:
        o.update(fname=f["filename"], format=f["format"], compression=enc(f.get("compression", "")), shuffle=enc(f.get("shuffle", "")), fat=pairs(f["attributes"]))
    return o

def drive(scn, d):
    from pyconform.cli import iconform
    r = random.Random(scn["seed"])
    out = []
    for k in range(scn["n"]):
        w = os.path.join(d, "s%d" % k); os.makedirs(w)
        tables = [table(r, t) for t in r.sample(TABLES, r.randint(1, 3))]
        dtext = deffile(r, tables)
        df = os.path.join(w, "defs"); open(df, "w").write(dtext)
        tf = []
        for t in tables:
            f = os.path.join(w, "CMIP6_%s" % t["id"]); json.dump(cmor(r, t), open(f, "w")); tf.append(f)
        coords = re.findall(r"(?m)^\s*#+\s*Coords\s*:\s*(\w+)", dtext)
        g, p = attributes(r, REALMS)
        globs, ga = write_globals(r, w, g, p)
        if any(f["kind"] == "text" for f in globs) and g.get("parent_activity_id") == "": continue
        user = r.sample(VARS + ["nosuch"], r.randint(1, 5)) if r.random() < 0.4 else []
        exp = r.choice(["hist", "piControl", "hist,ssp585"]) if r.random() < 0.9 else "hist"
        op = os.path.join(w, "o", "x") if r.random() < 0.3 else os.path.join(w, "o")
        argv = ["-d", df, "-g", ga, "-tt", "cmor", "-t", ",".join(tf), "-e", exp, "-o", op, "-p", "/out/dir"]
        test = r.random() < 0.15
        if test: argv += ["-to", "yes"]
        if user:
            if r.random() < 0.5: argv += ["-u", ",".join(user)]
            else:
                uf = os.path.join(w, "user"); open(uf, "w").write("\n".join(x + r.choice(["", " ", "\n"]) for x in user)); argv += ["-u", uf]
        so = io.StringIO(); err = ""
        try:
            with contextlib.redirect_stdout(so): iconform.main(argv)
        except BaseException as e:
            if type(e).__name__ == "Timeout": raise
            err = type(e).__name__ + ": " + str(e)[:80]
        text = so.getvalue()
        exps = exp.split(",")
        files = {n: json.load(open(os.path.join(op, n))) for n in sorted(os.listdir(op))} if os.path.isdir(op) else {}
        missing = re.findall(r"(?m)^missing: (\S+)$", text)
        unknown = re.findall(r"(?m)^Can not add variable: (\S+) ", text)
        ts = []
        for t in tables:
            hd = {x: t["head"][x] for x in ("data_specs_version", "activity_id") if x in t["head"]}
            ts.append({"id": t["id"], "realm": t["realm"], "freq": t["freq"], "headp": pairs(hd), "generic": t["generic"], "times": [a for a in AXES if "time" in a], "landuse": ["landUse"],
                       "similar": ["Coords_" + c for c in sorted(set(coords)) if c in "_".join(t["realm"])],
                       "axes": [dict(a, at=pairs(a["at"]), reqtext=enc(a["reqtext"])) for a in t["axes"]],
                       "vars": [dict(v, at=pairs(v["at"]), cm=v["measures"].split()) for v in t["vars"]]})
        for e in exps:
            mine = {n: f for n, f in files.items() if n.startswith(e + "_")}
            pp = dict(p, outdir="/out/dir", exp=e, version=iconform.version)
            # the reports of several experiments are those of one, repeated
            def share(xs): return xs[len(xs) // len(exps) * exps.index(e):len(xs) // len(exps) * (exps.index(e) + 1)]
            out.append({"kind": "mip", "lines": [list(x) for x in dtext.split("\n")], "globals": globs, "tables": ts, "user": user, "test": test, "p": pp, "err": err,
                        "out": [{"name": n, "entries": [entry(m, x) for m, x in f.items()]} for n, f in mine.items()], "missing": share(missing), "unknown": share(unknown)})
        shutil.rmtree(w)
    return out
