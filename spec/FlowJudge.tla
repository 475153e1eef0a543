------------------------------ MODULE FlowJudge ------------------------------
(* Judgement of one recorded conversion: r.run is its description, r.obs what the real code did with it           *)
(*   obs.err ("" or an error), obs.stage, obs.dmap <<[i, o]>>, obs.files <<[n, dims <<[n, size, unlim]>>,           *)
(*   vars <<[n, dims, shape, ot, c, u, hasu, pos]>>]>>, obs.other (files under other names), obs.skipv, obs.skipf, *)
(*   obs.valid <<[k, v]>>: validation warnings                                                                    *)
EXTENDS TraceBase, Flow
Tol == <<1, 50000>>
(* data that went through single precision is compared with a tolerance *)
Near(e, o) == \/ e = Unknown \/ e = o
              \/ IsNum(e) /\ o = Unknown
              \/ IsNum(e) /\ IsNum(o) /\ LET d == RAbs(RSub(e, o)) t == RMul(Tol, RAdd(One, RAbs(e)))
                                        IN ~IsNum(d) \/ ~IsNum(t) \/ RLe(d, t)
CellAgrees(e, o, loose) == IF loose THEN Near(e, o) ELSE Agree(e, o, 1000000)
MissingAgrees(e, o) == e = Unknown \/ (e = Missing) = (o = Missing)
FileOf(r, n) == r.obs.files[CHOOSE i \in DOMAIN r.obs.files : r.obs.files[i].n = n]
FileNames(r) == {r.obs.files[i].n : i \in DOMAIN r.obs.files}
ObsVar(f, n) == f.vars[CHOOSE i \in DOMAIN f.vars : f.vars[i].n = n]
ObsVars(f) == {f.vars[i].n : i \in DOMAIN f.vars}
ObsDims(f) == {f.dims[i].n : i \in DOMAIN f.dims}
Loose(r) == r.loose
MaxInt(S) == CHOOSE x \in S : \A y \in S : y <= x
FileLen(O, i, d) == IF d \in O.free THEN MaxInt({SizeOf(O.out[n], d) : n \in {m \in O.names[i] : InSeq(d, O.out[m].dims)}}) ELSE O.lens[d]
Stored(v, A) == IF v.fill = <<>> THEN A ELSE MapCells(A, LAMBDA x : IF x = v.fill[1] THEN Unknown ELSE x)
JudgeVar(r, O, i, f, n) ==
  LET v == VarOf(r.run, n)
      o == ObsVar(f, n)
      \* a number that is the declared filler cannot be told from a missing one
      A == Stored(v, Pad(Reverse(O.out[n], O.rev[i]), [d \in SetOf(O.out[n].dims) |-> FileLen(O, i, d)]))
      lo == Loose(r) \/ v.ot = "f4"
  IN Clause(o.dims = v.dims, "dimension_order")
     \cup Clause(o.ot = v.ot, "type")
     \cup (IF o.dims # v.dims THEN {} ELSE IF o.shape # A.shape THEN {"shape"}
           ELSE Clause(\A k \in DOMAIN A.c : MissingAgrees(A.c[k], o.c[k]), "missing_cells")
                \cup Clause(\A k \in DOMAIN A.c : A.c[k] = Missing \/ o.c[k] = Missing \/ CellAgrees(A.c[k], o.c[k], lo), "values"))
     \cup (IF v.u.has THEN Clause(o.hasu /\ AgreeUnit(A.u, UnitObs(o.u)), "units_attribute") ELSE Clause(~o.hasu, "units_attribute"))
     \cup Clause(o.pos = v.pos, "positive_attribute")
     \cup Clause(v.fill = <<>> \/ o.fv = v.fill, "declared_filler")
JudgeFile(r, O, i) ==
  LET f == FileOf(r, r.run.files[i].n) IN
  Clause(ObsVars(f) = O.names[i], "variables_of_file")
  \cup Clause(\A k \in DOMAIN f.dims : f.dims[k].n \in DOMAIN O.lens /\ f.dims[k].size = FileLen(O, i, f.dims[k].n) /\ f.dims[k].unlim = Unlim(r.run, O.made, O.o2i, f.dims[k].n), "dimension_lengths")
  \cup Clause(ObsDims(f) = UNION {MSet(VarOf(r.run, n).dims) : n \in O.names[i]}, "dimensions_of_file")
  \cup UNION {JudgeVar(r, O, i, f, n) : n \in O.names[i] \cap ObsVars(f)}
ByName(r, n) == CHOOSE i \in DOMAIN r.run.files : r.run.files[i].n = n
(* --- warnings *)
SkippedVars(r, O) == {r.run.vars[k].n : k \in {j \in DOMAIN r.run.vars : ~Given(r.run.vars[j])}} \cup {n \in O.used : Skipped(VarOf(r.run, n), O.env)}
SkippedFiles(r, O) == {r.run.files[i].n : i \in LiveFiles(r.run) \ O.files}
ExpectedWarn(r, O, i) == UNION {LET v == VarOf(r.run, n) IN Tag(OutOfRange(O.raw[n], v.vmin, <<>>), [k |-> "valid_min", v |-> n])
                                  \cup Tag(OutOfRange(O.raw[n], <<>>, v.vmax), [k |-> "valid_max", v |-> n]) : n \in O.names[i]}
Exact(O, n) == n \in DOMAIN O.raw /\ \A k \in DOMAIN O.raw[n].c : O.raw[n].c[k] # Unknown
ValidWarn(r, O) == {x \in {r.obs.valid[k] : k \in DOMAIN r.obs.valid} : x.k \in {"valid_min", "valid_max"} /\ Exact(O, x.v)}
MeanAbs(A) == LET s == Valid([k \in DOMAIN A.c |-> RAbs(A.c[k])]) IN IF s = <<>> THEN Missing ELSE RDiv(RSumSeq(s), I2R(Len(s)))
MeanWarn(r, O, i) == UNION {LET v == VarOf(r.run, n) x == MeanAbs(O.out[n])
                            IN Tag(v.mmin # <<>> /\ IsNum(x) /\ RLt(x, v.mmin[1]), [k |-> "ok_min_mean_abs", v |-> n])
                               \cup Tag(v.mmax # <<>> /\ IsNum(x) /\ RLt(v.mmax[1], x), [k |-> "ok_max_mean_abs", v |-> n]) : n \in O.names[i]}
MeanExact(r, O, i) == \A n \in O.names[i] : MeanAbs(O.out[n]) # Unknown
ObsMean(r) == {x \in {r.obs.valid[k] : k \in DOMAIN r.obs.valid} : x.k \in {"ok_min_mean_abs", "ok_max_mean_abs"}}
MapPairs(O) == {[i |-> O.o2i[d], o |-> d] : d \in DOMAIN O.o2i}
ObsMap(r) == {r.obs.dmap[k] : k \in DOMAIN r.obs.dmap}
(* badly chunked runs are refused before anything is written: [d, n] along unknown dimensions, or those reduced    *)
ChunkSet(r) == {r.run.chunks[i][1] : i \in DOMAIN r.run.chunks}
SumLike(r, O) == LET R == UNION {ReducedDims(VarOf(r.run, n).ast) \cup ZonalDims(VarOf(r.run, n).ast, Env(r.run)) : n \in {m \in O.made : VarOf(r.run, m).kind = "def"}}
                 IN {d \in DOMAIN O.o2i : O.o2i[d] \in R}
ChunkRefused(r, O) == \E i \in DOMAIN r.run.chunks : r.run.chunks[i][1] \notin DOMAIN O.o2i \/ r.run.chunks[i][2] < 1 \/ r.run.chunks[i][1] \in SumLike(r, O)
JudgeRun(r, O) ==
  LET fn == FileNames(r)
      want == {r.run.files[i].n : i \in O.files}
      names(S) == {r.run.files[i].n : i \in S}
      needbad == {i \in O.files : O.names[i] \cap O.bad # {}}
  IN IF O.unmodelled # {} THEN {}
     ELSE Clause(r.obs.err # "" \/ r.obs.other = <<>>, "unfinished_file_left") \cup
     (IF O.described /\ O.bad # {} THEN
        Clause(needbad = {} \/ r.obs.err # "", "meaningless_definition_accepted")
        \cup Clause(fn \cap names(needbad) = {}, "meaningless_definition_written")
      ELSE IF ~O.planned THEN Clause(r.obs.err # "", "impossible_plan_accepted") \cup Clause(fn = {}, "impossible_plan_written")
      ELSE IF ChunkRefused(r, O) THEN Clause(r.obs.err # "", "unsafe_chunks_accepted") \cup Clause(fn = {} /\ r.obs.other = <<>>, "unsafe_chunks_written")
      ELSE Clause(ObsMap(r) = MapPairs(O), "dimension_map")
           \cup Clause({r.obs.skipv[k] : k \in DOMAIN r.obs.skipv} = SkippedVars(r, O), "skipped_variables_reported")
           \cup Clause({r.obs.skipf[k] : k \in DOMAIN r.obs.skipf} = SkippedFiles(r, O), "skipped_files_reported")
           \cup Clause(fn \subseteq want, "unexpected_file")
           \cup (IF O.badfile # {} THEN
                   Clause(r.obs.err # "", "impossible_variable_accepted") \cup Clause(fn \cap names(O.badfile) = {}, "impossible_variable_written")
                 ELSE Clause(r.obs.err = "", "possible_run_refused") \cup Clause(r.obs.err # "" \/ want \subseteq fn, "file_not_written")
                      \cup (IF r.obs.err # "" THEN {} ELSE
                              Clause(ValidWarn(r, O) = {x \in UNION {ExpectedWarn(r, O, i) : i \in O.files} : Exact(O, x.v)}, "range_warnings")
                              \cup (IF r.run.chunks # <<>> \/ \E i \in O.files : ~MeanExact(r, O, i) THEN {}
                                    ELSE Clause(ObsMean(r) = UNION {MeanWarn(r, O, i) : i \in O.files}, "mean_warnings"))))
           \cup UNION {JudgeFile(r, O, i) : i \in {j \in O.files \ O.badfile : r.run.files[j].n \in fn}})
(* --- what a record exercises *)
RECURSIVE OpsOf(_)
OpsOf(e) == CASE e.t \in {"op", "fn"} -> {IF e.t = "op" THEN e.n \o ToString(Len(e.a)) ELSE e.n} \cup UNION {OpsOf(e.a[i]) : i \in DOMAIN e.a}
              [] e.t = "var" -> IF e.x = <<>> THEN {} ELSE {"index"}
              [] OTHER -> {}
TagsRun(r, O) ==
  LET ok == r.obs.err = "" /\ O.unmodelled = {} /\ O.bad = {} /\ O.planned
      W == UNION {O.names[i] : i \in O.files}
      cells == UNION {{O.out[n].c[k] : k \in DOMAIN O.out[n].c} : n \in W}
  IN Tag(O.unmodelled # {}, "unmodelled") \cup Tag(ok, "written") \cup Tag(r.obs.err # "", "refused") \cup Tag(~O.described, "refused_description")
     \cup Tag(O.described /\ O.bad # {}, "refused_definition") \cup Tag(O.described /\ O.bad = {} /\ ~O.mapok, "refused_map") \cup Tag(O.badfile # {}, "refused_variable")
     \cup Tag(O.described /\ SkippedFiles(r, O) # {}, "skipped_file")
     \cup (IF ~ok THEN {} ELSE
          Tag(\E i \in O.files : O.rev[i] # {}, "inverted") \cup Tag(Missing \in cells, "missing") \cup Tag(Unknown \in cells, "unrepresentable")
          \cup Tag(r.run.chunks # <<>>, "chunked") \cup Tag(\E n \in W : VarOf(r.run, n).kind = "data", "given_data")
          \cup Tag(Cardinality(O.files) > 1, "several_files") \cup Tag(r.obs.valid # <<>>, "validation_warning")
          \cup Tag(\E n \in W : O.raw[n].pos # "" /\ O.defs[n].pos # "" /\ O.defs[n].pos # O.raw[n].pos, "flipped_on_output")
          \cup Tag(\E n \in W : VarOf(r.run, n).kind = "def" /\ [j \in DOMAIN O.defs[n].dims |-> ToOut(O.o2i, O.defs[n].dims[j])] # O.raw[n].dims, "transposed")
          \cup Tag(\E n \in W : ~SameUnit(O.defs[n].u, O.raw[n].u), "converted")
          \cup Tag(\E n \in W : Unlim(r.run, O.made, O.o2i, "time") , "unlimited")
          \cup Tag(\E n \in W : Len(O.raw[n].dims) > 2, "three_dims")
          \cup Tag(\E d \in DOMAIN O.o2i : d # O.o2i[d], "renamed")
          \cup UNION {{"op:" \o x : x \in OpsOf(VarOf(r.run, n).ast)} : n \in {m \in W : VarOf(r.run, m).kind = "def"}})
=============================================================================
