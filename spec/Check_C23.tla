------------------------------ MODULE Check_C23 ------------------------------
(* r.sources: existing files [n, fmt, gattrs, dims, vars]; r.ops: operations with what they gave (ret);               *)
(* r.after: the files written, read independently; r.digests: bytes of the existing files before and after           *)
EXTENDS TraceBase, FileLayer
JudgeRead(S, o) ==
  LET s == Src(S, o.s) v == SrcVar(s, o.var) IN
  IF o.op = "info" THEN Clause(o.ret.type = v.type /\ o.ret.dims = v.dims, "information") \cup Clause(SameAttrs(o.ret.attrs, v.attrs), "attributes_read")
  ELSE LET sh == SrcShape(s, v)
           want == IF o.all \/ v.dims = <<>> THEN v.c ELSE LET p == ProdSeq(Tail(sh)) IN SubSeq(v.c, o.index * p + 1, (o.index + 1) * p)
       IN Clause(o.ret.shape = (IF o.all \/ v.dims = <<>> THEN sh ELSE Tail(sh)) /\ o.ret.c = want, "slice_read")
JudgeFile(f, o) ==
  LET vn == {o.vars[i].n : i \in DOMAIN o.vars} ov(n) == SrcVar(o, n) IN
  Clause(o.fmt = f.fmt, "format") \cup Clause(SameAttrs(o.gattrs, f.gattrs), "global_attributes")
  \cup Clause({[n |-> d, len |-> f.dims[d].len, unl |-> f.dims[d].unl] : d \in DOMAIN f.dims} = SetOf(o.dims), "dimensions")
  \cup Clause(vn = DOMAIN f.vars, "variables")
  \cup UNION {LET v == f.vars[n] x == ov(n) IN
        Clause(x.type = v.type /\ x.dims = v.dims, "type_or_dimensions") \cup Clause(SameAttrs(x.attrs, v.attrs), "attributes") \cup Clause(x.fill = v.fill, "fill_value")
        \cup Clause(x.level = (IF f.fmt = "NETCDF4_CLASSIC" /\ v.dims # <<>> THEN f.level ELSE 0), "compression")
        \cup Clause(x.c = CellsOf(f, n), "data") : n \in vn \cap DOMAIN f.vars}
JudgeLayer(r) ==
  LET F == RunOps(<<>>, r.sources, r.ops) names == {r.after[i].n : i \in DOMAIN r.after} IN
  Clause(r.err = "", "operation_refused")
  \cup Clause(\A i \in DOMAIN r.digests : r.digests[i][1] = r.digests[i][2], "source_modified")
  \cup UNION {JudgeRead(r.sources, r.ops[i]) : i \in {j \in DOMAIN r.ops : r.ops[j].op \in {"info", "read"}}}
  \cup (IF r.err # "" THEN {} ELSE Clause(names = DOMAIN F, "files") \cup UNION {JudgeFile(F[n], r.after[CHOOSE i \in DOMAIN r.after : r.after[i].n = n]) : n \in names \cap DOMAIN F})
JudgeName(r) == Clause(r.got = (LET S == {k \in DOMAIN r.candidates : r.candidates[k] \in SetOf(r.there)} IN IF S = {} THEN "" ELSE r.candidates[CHOOSE k \in S : \A j \in S : k <= j]), "file_name")
TagsLayer(r) ==
  {r.ops[i].op : i \in DOMAIN r.ops} \cup {"fmt_" \o r.ops[i].fmt : i \in {j \in DOMAIN r.ops : r.ops[j].op = "create"}}
  \cup Tag(Cardinality({i \in DOMAIN r.ops : r.ops[i].op = "create"}) > 1, "several_files")
  \cup Tag(\E i \in DOMAIN r.ops : r.ops[i].op = "write" /\ r.ops[i].index > 0, "write_later") \cup Tag(\E i \in DOMAIN r.ops : r.ops[i].op = "write" /\ r.ops[i].index = -99, "write_default")
  \cup Tag(\E i \in DOMAIN r.ops : r.ops[i].op = "write" /\ r.ops[i].var = "time", "write_time") \cup Tag(\E i \in DOMAIN r.ops : r.ops[i].op = "write" /\ Missing \in SetOf(r.ops[i].c), "write_missing")
  \cup Tag(\E i \in DOMAIN r.ops : r.ops[i].op = "read" /\ r.ops[i].all, "read_all") \cup Tag(\E i \in DOMAIN r.ops : r.ops[i].op = "read" /\ ~r.ops[i].all, "read_slice")
  \cup Tag(\E i \in DOMAIN r.ops : r.ops[i].op = "read" /\ Missing \in SetOf(r.ops[i].ret.c), "read_missing")
  \cup Tag(\E i \in DOMAIN r.ops : r.ops[i].op = "define" /\ r.ops[i].meta # <<>>, "define_with_copies")
  \cup UNION {{"type_" \o r.after[i].vars[k].type : k \in DOMAIN r.after[i].vars} : i \in DOMAIN r.after}
  \cup Tag(\E i \in DOMAIN r.after : \E k \in DOMAIN r.after[i].vars : r.after[i].vars[k].dims = <<>>, "scalar") \cup Tag(\E i \in DOMAIN r.after : \E k \in DOMAIN r.after[i].vars : r.after[i].vars[k].level > 0, "compressed")
AssessRecord(r) == IF r.kind = "name" THEN [bad |-> JudgeName(r), tags |-> {"name"} \cup Tag(r.got = "", "no_file")] ELSE [bad |-> JudgeLayer(r), tags |-> TagsLayer(r)]
=============================================================================
