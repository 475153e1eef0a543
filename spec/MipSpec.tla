------------------------------- MODULE MipSpec -------------------------------
(* The generator of specifications.  A definition file is read line by line into sections (one for each table, one for *)
(* the coordinates of each realm); global attributes are given in files, some of them blank; tables of requested       *)
(* variables have a header, variables and axes.  For every requested variable that its table's section defines there  *)
(* is an entry in the specification of the table, together with its axes; every other one is reported.                *)
(* Texts of lines are sequences of characters; values of attributes are strings (numbers are strings with a mark).     *)
EXTENDS Listing, Bags
Blanked == "__FILL__"
RECURSIVE Join(_, _)
Join(ws, sep) == IF ws = <<>> THEN "" ELSE IF Len(ws) = 1 THEN ws[1] ELSE ws[1] \o sep \o Join(Tail(ws), sep)
CountOf(s) == [n \in {s[i] : i \in DOMAIN s} |-> Cardinality({i \in DOMAIN s : s[i] = n})]
Range(s) == {s[i] : i \in DOMAIN s}
FnOf(pairs) == [k \in {pairs[i][1] : i \in DOMAIN pairs} |-> (pairs[CHOOSE i \in DOMAIN pairs : pairs[i][1] = k /\ \A j \in DOMAIN pairs : pairs[j][1] = k => j <= i])[2]]
At0(f, k) == IF k \in DOMAIN f THEN f[k] ELSE ""
Text(s) == TextOf(s, 1, Len(s) + 1)
Without(f, ks) == [k \in DOMAIN f \ ks |-> f[k]]
(* ---- definition files ---- *)
Hashes(s) == {i \in DOMAIN s : s[i] = "#"}
RECURSIVE DropHashes(_)
DropHashes(s) == IF s # <<>> /\ s[1] = "#" THEN DropHashes(Tail(s)) ELSE s
Prefix(s, w) == Len(s) >= Len(w) /\ SubSeq(s, 1, Len(w)) = w
TableWord == <<"T", "A", "B", "L", "E">>
CoordsWord == <<"C", "o", "o", "r", "d", "s">>
UpToHash(s) == LET i == UpTo(s, "#", 1) IN IF i = 0 THEN s ELSE SubSeq(s, 1, i - 1)
(* what a line says: the header of a section, a definition, something that is not understood, or nothing *)
Header(ln) == LET h == LStrip(DropHashes(ln))
                 After(w) == LStrip(SubSeq(h, Len(w) + 1, Len(h)))
                 Says(w) == Prefix(h, w) /\ Prefix(After(w), <<":">>)
                 Name(w) == Text(Strip(UpToHash(Tail(After(w)))))
             IN IF ln = <<>> \/ ln[1] # "#" THEN [is |-> FALSE, n |-> ""]
                ELSE IF Says(TableWord) THEN [is |-> TRUE, n |-> Name(TableWord)]
                ELSE IF Says(CoordsWord) THEN [is |-> TRUE, n |-> "Coords_" \o Name(CoordsWord)] ELSE [is |-> FALSE, n |-> ""]
Glob(ln) == IF Cardinality(Hashes(ln)) = 1 THEN Text(Strip(SubSeq(ln, UpTo(ln, "#", 1) + 1, Len(ln)))) ELSE ""
Saying(line) == LET ln == Strip(line) h == Header(ln) d == LineDef(ln)
                IN [kind |-> IF h.is THEN "header" ELSE IF d.ok THEN "definition" ELSE IF d.junk THEN "junk" ELSE "nothing",
                    n |-> IF h.is THEN h.n ELSE d.n, d |-> Text(d.d), glob |-> Glob(ln)]
(* reading: one saying after the other; sections <<name -> <<variable -> [d, glob]>>>> *)
ReadStart == [sec |-> "", defs |-> <<>>]
ReadStep(st, x) == CASE x.kind = "header" -> [sec |-> x.n, defs |-> IF x.n \in DOMAIN st.defs THEN st.defs ELSE (x.n :> <<>>) @@ st.defs]
                     [] x.kind = "definition" -> [st EXCEPT !.defs = (st.sec :> ((x.n :> [d |-> x.d, glob |-> x.glob]) @@ (IF st.sec \in DOMAIN st.defs THEN st.defs[st.sec] ELSE <<>>))) @@ st.defs]
                     [] OTHER -> st
RECURSIVE ReadAll(_, _, _)
ReadAll(xs, i, st) == IF i > Len(xs) THEN st ELSE ReadAll(xs, i + 1, ReadStep(st, xs[i]))
Sayings(lines) == TLCEval([i \in DOMAIN lines |-> Saying(lines[i])])
Definitions(lines) == ReadAll(Sayings(lines), 1, ReadStart).defs
(* the same without reading in turn: the last line that defines the name after a header of the section *)
SectionAt(xs, i) == LET hs == {j \in 1 .. i : xs[j].kind = "header"} IN IF hs = {} THEN "" ELSE xs[CHOOSE j \in hs : \A k \in hs : k <= j].n
DefiningLines(xs, s, n) == {i \in DOMAIN xs : xs[i].kind = "definition" /\ xs[i].n = n /\ SectionAt(xs, i) = s}
(* a file of global attributes has one section; what has no value is blank, to be filled *)
GlobalDefs(lines) == LET V(d) == IF d.d = <<>> THEN Blanked ELSE Text(d.d)
                     IN Without(FnOf([i \in DOMAIN lines |-> LET d == LineDef(lines[i]) IN IF d.ok THEN <<d.n, V(d)>> ELSE <<"", "">>]), {""})
RECURSIVE GlobalsOf(_, _, _)
GlobalsOf(files, i, f) == IF i > Len(files) THEN f
                          ELSE GlobalsOf(files, i + 1, (IF files[i].kind = "text" THEN GlobalDefs(files[i].lines) ELSE FnOf(files[i].pairs)) @@ f)
(* ---- the attributes of a file, from the global ones (g), the table t and its variable v; p: what numbers stand in texts *)
Filled(g, k) == k \in DOMAIN g /\ g[k] # Blanked
Measures == <<"areacello", "areacella", "areacellr", "areacellg", "volcello">>
External(v) == SelectSeq(Measures, LAMBDA m : m \in Range(v.cm))
Realm(t) == Join(t.realm, " ")
(* blank attributes and where their values come from *)
Source(k, t, v) == CASE k = "activity_id" -> At0(FnOf(t.headp), "activity_id")
                     [] k = "data_specs_version" -> At0(FnOf(t.headp), "data_specs_version")
                     [] k = "experiment" -> At0(FnOf(t.headp), "experiment")
                     [] k = "external_variables" -> Join(External(v), " ")
                     [] k = "frequency" -> t.freq
                     [] k = "realm" -> Realm(t)
                     [] k = "table_id" -> t.id
                     [] k = "variable_id" -> v.n
                     [] OTHER -> ""
NotForFiles(format) == {"grids", "netcdf_type"} \cup (IF format \in {"NETCDF4", "NETCDF4_CLASSIC"} THEN {"compression", "shuffle"} ELSE {})
Fill(g, t, v) == LET f == Without(g, NotForFiles(g["netcdf_type"]) \cup (IF External(v) = <<>> /\ ~Filled(g, "external_variables") THEN {"external_variables"} ELSE {}))
                 IN [k \in DOMAIN f |-> IF f[k] = Blanked THEN Source(k, t, v) ELSE f[k]]
(* the run a variant stands for *)
Indices == <<"realization_index", "initialization_index", "physics_index", "forcing_index">>
Letters4 == <<"r", "i", "p", "f">>
RECURSIVE Ripf(_, _)
Ripf(ix, i) == IF i > 4 THEN "" ELSE Letters4[i] \o ToString(ix[i]) \o Ripf(ix, i + 1)
NumberMark == "#num "
NumText(n) == NumberMark \o ToString(n)
Given(g, ks) == \A k \in ks : k \in DOMAIN g
Run(g, p) == IF "variant_label" \in DOMAIN g THEN g["variant_label"] ELSE IF p.indices # <<>> THEN Ripf(p.indices, 1) ELSE "None"
WithIndices(f, p) == IF "variant_label" \notin DOMAIN f THEN f ELSE [k \in {Indices[i] : i \in 1 .. 4} |-> NumText(p.indices[CHOOSE i \in 1 .. 4 : Indices[i] = k])] @@ f
(* the run a run branched from *)
Only(f, ks) == [k \in DOMAIN f \cap ks |-> f[k]]
Set(f, k, val) == IF k \in DOMAIN f THEN (k :> val) @@ f ELSE f
RECURSIVE SetAll(_, _)
SetAll(f, ps) == IF ps = <<>> THEN f ELSE SetAll(Set(f, ps[1][1], ps[1][2]), Tail(ps))
NoParent(f) == SetAll(f, <<<<"parent_mip_era", "no parent">>, <<"parent_source_id", "no parent">>, <<"parent_time_units", "no parent">>>>)
Parent(f, p) ==
  IF "branch_method" \notin DOMAIN f THEN NoParent(SetAll(f, <<<<"branch_time_in_child", "no parent">>, <<"branch_time_in_parent", "no parent">>>>))
  ELSE IF p.noparent THEN NoParent(SetAll(f, <<<<"branch_time_in_child", p.child>>, <<"branch_time_in_parent", "#num 0.0">>>>))
  ELSE LET has == p.parent_activity
           Or(k, yes, no) == <<k, IF k \in DOMAIN f /\ has THEN yes ELSE no>>
           g == SetAll(f, <<<<"branch_time_in_child", p.child>>, <<"branch_time_in_parent", p.parent>>>>)
       IN (("parent_mip_era" :> Or("parent_mip_era", At0(f, "mip_era"), "no parent")[2])
           @@ ("parent_source_id" :> Or("parent_source_id", At0(f, "source_id"), "")[2])
           @@ ("parent_time_units" :> Or("parent_time_units", "days since 0001-01-01 00:00:00", "none")[2])) @@ g
InfoParts == <<"mip_era", "institution_id", "source_id", "experiment_id", "sub_experiment_id", "variant_label">>
Info(g) == IF \E k \in Range(InfoParts) \ {"sub_experiment_id"} : k \notin DOMAIN g THEN ""
           ELSE IF \E k \in Range(InfoParts) : k \in DOMAIN g /\ g[k] = Blanked THEN ""
           ELSE "https://furtherinfo.es-doc.org/" \o Join([i \in DOMAIN InfoParts |-> At0(g, InfoParts[i])], ".")
(* descriptions of grids by realm: [realms, text] *)
GridOf(p, realm) == LET is == {i \in DOMAIN p.grids : realm \in Range(p.grids[i].realms)} IN [has |-> is # {}, text |-> IF is = {} THEN "" ELSE p.grids[CHOOSE i \in is : \A j \in is : j <= i].text]
FirstWord(f, t) == IF f["realm"] = Realm(t) THEN (IF t.realm = <<>> THEN "" ELSE t.realm[1]) ELSE f["realm"]
WithGrid(f, t, p) == IF "grid" \notin DOMAIN f THEN f
                     ELSE LET w == FirstWord(f, t) IN
                          IF w = "" THEN Set(f, "grid", "CAN NOT FIND GRID - NO REALM IN DATAREQ")
                          ELSE IF GridOf(p, w).has THEN Set(f, "grid", GridOf(p, w).text) ELSE f
FileAttributes(g, t, v, p) ==
  LET f == Fill(g, t, v)
      h == IF "further_info_url" \in DOMAIN g /\ g["further_info_url"] = Blanked THEN Set(f, "further_info_url", Info(g)) ELSE f
  IN ("variant_label" :> Run(g, p)) @@ WithGrid(WithIndices(Parent(h, p), p), t, p)
(* ---- names of files ---- *)
DatePart == [x \in {"1hr", "1hrPt", "3hr", "3hrPt", "6hr", "6hrPt", "subhrPt"} |-> "_{%Y%m%d%H%M-%Y%m%d%H%M}"]
            @@ ("1hrCM" :> "_{%Y%m%d%H%M-%Y%m%d%H%M}-clim") @@ ("day" :> "_{%Y%m%d-%Y%m%d}")
            @@ [x \in {"dec", "yr", "yrPt"} |-> "_{%Y-%Y}"] @@ [x \in {"mon", "monPt"} |-> "_{%Y%m-%Y%m}"] @@ ("monC" :> "_{%Y%m-%Y%m}-clim")
FileName(g, t, v, p) ==
  LET fa == Fill(g, t, v)
      act == IF "activity_id" \notin DOMAIN fa THEN "" ELSE IF fa["activity_id"] = "" /\ g["activity_id"] = Blanked THEN "None" ELSE fa["activity_id"]
      run == Run(g, p)
      grid == At0(fa, "grid_label")
  IN Join(<<p.outdir, At0(fa, "mip_era"), act, At0(fa, "institution_id"), At0(fa, "source_id"), p.exp, run, t.id, v.n, grid, p.version,
            Join(<<v.n, t.id, At0(fa, "source_id"), p.exp, run, grid>>, "_") \o At0(DatePart, t.freq) \o ".nc">>, "/")
SpecName(g, t, v, p) == Join(<<p.exp, At0(Fill(g, t, v), "activity_id"), t.id, Join(t.realm, "_")>>, "_")
(* ---- entries ---- *)
TypeOf == [x \in {"char", "byte", "short", "int", "float", "real", "double"} |-> x] @@ ("character" :> "char") @@ ("integer" :> "int")
Reverse2(s) == [i \in DOMAIN s |-> s[Len(s) + 1 - i]]
NonBlank(f) == [k \in {x \in DOMAIN f : f[x] # ""} |-> f[k]]
Defined(defs, t, v) == t.id \in DOMAIN defs /\ v.n \in DOMAIN defs[t.id]
VarEntry(defs, g, t, v, p) ==
  LET d == defs[t.id][v.n]
      own == ("variable_id" :> v.n) @@ ("realm" :> Realm(t)) @@ ("mipTable" :> t.id) @@ ("frequency" :> t.freq) @@ ("dimensions" :> Join(v.dims, " "))
             @@ FnOf(v.at) @@ ("type" :> v.type) @@ ("requested" :> v.requested) @@ ("cell_measures" :> v.measures)
  IN [kind |-> "variable", def |-> [k |-> "text", w |-> <<IF v.requested = "" THEN d.d ELSE v.requested>>], dims |-> Reverse2(v.dims),
      dt |-> IF v.type \in {"", "None"} THEN "real" ELSE TypeOf[v.type], glob |-> d.glob,
      at |-> ("comment" :> d.d) @@ ("coordinates" :> Join(Reverse2(v.dims), " ")) @@ NonBlank(own),
      file |-> [name |-> FileName(g, t, v, p), format |-> g["netcdf_type"],
                compression |-> IF g["netcdf_type"] \in {"NETCDF4", "NETCDF4_CLASSIC"} THEN At0(g, "compression") ELSE "",
                shuffle |-> IF g["netcdf_type"] \in {"NETCDF4", "NETCDF4_CLASSIC"} THEN At0(g, "shuffle") ELSE "", at |-> FileAttributes(g, t, v, p)]]
(* the coordinates of a realm are those of its first word with a section; of realms without one, nothing is said *)
Sections(defs, t) == {i \in DOMAIN t.realm : ("Coords_" \o t.realm[i]) \in DOMAIN defs}
CoordSection(defs, t) == LET s == Sections(defs, t) IN IF s = {} THEN "" ELSE "Coords_" \o t.realm[CHOOSE i \in s : \A j \in s : i <= j]
IsGeneric(t, d) == d \in Range(t.generic)
AxisOf(t, d) == t.axes[CHOOSE i \in DOMAIN t.axes : t.axes[i].n = d]
NoAxis == [at |-> <<>>, type |-> "", req |-> [k |-> "none", w |-> <<>>], reqtext |-> ""]
AxisEntry(defs, t, d) ==
  LET a == IF IsGeneric(t, d) THEN NoAxis ELSE AxisOf(t, d)
      s == CoordSection(defs, t)
  IN [kind |-> "axis", dims |-> <<d>>, dt |-> IF a.type = "" THEN "" ELSE TypeOf[a.type],
      def |-> IF s # "" /\ d \in DOMAIN defs[s] THEN (IF d \in Range(t.landuse) THEN [k |-> "list", w |-> <<"#num 0", "#num 1", "#num 2", "#num 3">>] ELSE [k |-> "text", w |-> <<defs[s][d].d>>])
              ELSE IF a.req.w = <<>> THEN [k |-> "none", w |-> <<>>] ELSE a.req,
      settled |-> s # "" \/ ~\E x \in DOMAIN defs : x \in Range(t.similar),
      at |-> (IF d \in Range(t.times) THEN ("units" :> "days since 0001-01-01 00:00:00") ELSE <<>>)
             @@ NonBlank(FnOf(a.at) @@ ("type" :> a.type) @@ ("requested" :> a.reqtext))]
(* ---- generation: one requested variable of one table after the other, in any order ---- *)
RequestedOf(t, user) == IF user = <<>> THEN t.vars ELSE SelectSeq(t.vars, LAMBDA v : v.n \in Range(user))
Start0 == [specs |-> <<>>, missing |-> EmptyBag]
Add(out, defs, g, t, v, p) ==
  IF ~Defined(defs, t, v) THEN [out EXCEPT !.missing = out.missing (+) SetToBag({v.n})]
  ELSE LET key == SpecName(g, t, v, p)
           old == IF key \in DOMAIN out.specs THEN out.specs[key] ELSE <<>>
           new == (v.n :> VarEntry(defs, g, t, v, p)) @@ old @@ [d \in Range(v.dims) |-> AxisEntry(defs, t, d)]
       IN [out EXCEPT !.specs = (key :> new) @@ out.specs]
RECURSIVE AddAll(_, _, _, _, _, _)
AddAll(out, defs, g, t, vs, p) == IF vs = <<>> THEN out ELSE AddAll(Add(out, defs, g, t, vs[1], p), defs, g, t, Tail(vs), p)
RECURSIVE Generate(_, _, _, _, _, _)
Generate(out, defs, g, ts, user, p) == IF ts = <<>> THEN out
                                       ELSE Generate(AddAll(out, defs, g, ts[1], RequestedOf(ts[1], user), p), defs, g, Tail(ts), user, p)
(* the files: one for each table, or, for tests, one for each entry with its axes (axes need none) *)
RECURSIVE Merge(_)
Merge(fs) == IF fs = {} THEN <<>> ELSE LET f == CHOOSE x \in fs : TRUE IN f @@ Merge(fs \ {f})
Files(specs, test) == IF ~test THEN Merge({(b \o "_spec.json") :> specs[b] : b \in DOMAIN specs})
                      ELSE Merge(UNION {{(b \o "_" \o n \o "_spec.json") :> Only(specs[b], {n} \cup Range(specs[b][n].dims)) : n \in DOMAIN specs[b]} : b \in DOMAIN specs})
NeedNot(file) == \A n \in DOMAIN file : file[n].kind = "axis"
(* names asked for that no table has *)
NotInTables(ts, user) == {n \in Range(user) : \A i \in DOMAIN ts : \A j \in DOMAIN ts[i].vars : ts[i].vars[j].n # n}
=============================================================================
