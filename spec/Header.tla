------------------------------- MODULE Header -------------------------------
(* Headers of output files.                                                                                       *)
(*  r.hdr.vars:  <<[n, attrs <<[k, v]>> (declared attributes, as text), fill (<<>> or <<text>>), type]>>           *)
(*  r.hdr.files: <<[n, fmt ("" : default), deflate (<<>> or <<n>>), gattrs <<[k, v]>>]>>                            *)
(*  r.hdr.history, r.hdr.deflate (<<>> or <<n>>: compression given for the run)                                   *)
(*  observed: files with fmt, gattrs <<[k, v]>>, created, and variables with attrs <<[k, v]>>, zlib, level          *)
EXTENDS FlowJudge
Internal == {"_FillValue", "direction", "history"}
(* judged as quantities, not as text *)
AsUnits == {"units", "calendar"}
ClassicTypes == {"byte", "char", "short", "int", "float", "double"}
NewTypes == ClassicTypes \cup {"ushort", "uint", "int64", "uint64", "real"}
Formats == {"NETCDF4", "NETCDF4_CLASSIC", "NETCDF3_CLASSIC", "NETCDF3_64BIT_OFFSET", "NETCDF3_64BIT_DATA", "NETCDF3_64BIT"}
TypesOf(fmt) == IF fmt = "NETCDF4" THEN NewTypes ELSE ClassicTypes
DefaultFormat == "NETCDF4_CLASSIC"
DefaultDeflate == 2
FormatOf(h) == IF h.fmt = "" THEN DefaultFormat ELSE h.fmt
(* the name the library gives a format *)
FormatName(f) == IF f = "NETCDF3_64BIT" THEN "NETCDF3_64BIT_OFFSET" ELSE f
Compressed(f) == f \in {"NETCDF4", "NETCDF4_CLASSIC"}
Level(r, h) == IF r.hdr.deflate # <<>> THEN r.hdr.deflate[1] ELSE IF h.deflate = <<>> THEN DefaultDeflate ELSE h.deflate[1]
HVar(r, n) == r.hdr.vars[CHOOSE i \in DOMAIN r.hdr.vars : r.hdr.vars[i].n = n]
HFile(r, n) == r.hdr.files[CHOOSE i \in DOMAIN r.hdr.files : r.hdr.files[i].n = n]
KeysOf(s) == {s[i].k : i \in DOMAIN s}
ValueOf(s, k) == s[CHOOSE i \in DOMAIN s : s[i].k = k].v
(* a declaration the format has no room for *)
BadHeader(r) == \E i \in LiveFiles(r.run) : LET h == HFile(r, r.run.files[i].n) IN
                  \/ FormatOf(h) \notin Formats
                  \/ h.deflate # <<>> /\ h.deflate[1] \notin 0 .. 9
                  \/ \E n \in Contents(r.run, r.run.files[i]) : HVar(r, n).type \notin TypesOf(FormatOf(h))
BadLevel(r) == r.hdr.deflate # <<>> /\ r.hdr.deflate[1] \notin 0 .. 9
InheritsCalendar(v, A) == v.u.has /\ IsTimeRef(A.u) /\ v.u.cal = ""
JudgeHeader(r, O, i) ==
  LET h == HFile(r, r.run.files[i].n)
      f == FileOf(r, r.run.files[i].n)
  IN Clause(f.fmt = FormatName(FormatOf(h)), "format")
     \cup Clause(KeysOf(f.gattrs) = KeysOf(h.gattrs) \cup {"creation_date"} /\ \A k \in KeysOf(h.gattrs) \ {"creation_date"} : ValueOf(f.gattrs, k) = ValueOf(h.gattrs, k), "global_attributes")
     \cup Clause(f.created, "creation_date")
     \cup UNION {LET v == VarOf(r.run, n) o == ObsVar(f, n) d == HVar(r, n)
                     declared == (KeysOf(d.attrs) \ Internal) \cup Tag(d.fill # <<>>, "_FillValue")
                                 \cup Tag(r.hdr.history, "history") \cup Tag(InheritsCalendar(v, O.defs[n]), "calendar")
                 IN Clause(KeysOf(o.attrs) = declared, "attributes_of_variable")
                    \cup Clause(\A k \in (KeysOf(d.attrs) \ (Internal \cup AsUnits)) \cap KeysOf(o.attrs) : ValueOf(o.attrs, k) = ValueOf(d.attrs, k), "attribute_values")
                    \* units declared in full are written as they are declared
                    \cup Clause("units" \notin KeysOf(d.attrs) \cap KeysOf(o.attrs) \/ v.u.n = "" \/ v.u.ref # <<>> \/ IsTimeRef(O.defs[n].u) \/ ValueOf(o.attrs, "units") = ValueOf(d.attrs, "units"), "units_text")
                    \cup Clause("calendar" \notin KeysOf(d.attrs) \cap KeysOf(o.attrs) \/ ValueOf(o.attrs, "calendar") = ValueOf(d.attrs, "calendar"), "calendar_text")
                    \cup Clause(d.fill = <<>> \/ "_FillValue" \notin KeysOf(o.attrs) \/ ValueOf(o.attrs, "_FillValue") = d.fill[1], "fill_value")
                    \cup Clause("history" \notin KeysOf(d.attrs) \cap KeysOf(o.attrs) \/ ~r.hdr.history \/ o.keepshistory, "declared_history")
                    \cup Clause((o.level > 0) = (Level(r, h) > 0 /\ Compressed(FormatOf(h)) /\ v.dims # <<>>), "compressed")
                    \cup Clause(o.level \in {0, Level(r, h)}, "compression_level")
                 : n \in O.names[i] \cap ObsVars(f)}
=============================================================================
