------------------------------ MODULE Check_C27 ------------------------------
(* Records: argv (arguments: characters), run and hdr (the specification ../spec.json; ../alt.json is the same with    *)
(* files called alt_<name>), files <<[p, f: number, -1 if it is no data]>>, needs: the modules its functions are in,   *)
(* mods: the modules there are in ../m (that can be loaded), obs as for conversions, obs.serial                       *)
EXTENDS Header, Cli
Std(q) == IF q.std = <<>> THEN "" ELSE q.std[1]
ModsGiven(r, q) == {q.mods[i] : i \in DOMAIN q.mods}
Loadable(r) == {"../m/" \o r.mods[i] : i \in DOMAIN r.mods}
InputFiles(r, q) == {i \in DOMAIN r.files : \E k \in DOMAIN q.inputs : Matches(q.inputs[k], r.files[i].p)}
Read1(r, S) == SelectSeq(r.run.inp, LAMBDA v : \E k \in DOMAIN v.f : \E i \in S : r.files[i].f = v.f[k])
Alt(f) == "alt_" \o f.n
(* the run and the headers the arguments describe *)
Asked(r, q) ==
  LET S == InputFiles(r, q)
      alt == Std(q) = "../alt.json"
      run0 == [r.run EXCEPT !.inp = Read1(r, S), !.chunks = [i \in DOMAIN q.chunks |-> <<q.chunks[i].d, q.chunks[i].n>>],
                            !.files = [i \in DOMAIN r.run.files |-> IF alt THEN [r.run.files[i] EXCEPT !.n = Alt(r.run.files[i])] ELSE r.run.files[i]]]
      hdr0 == [r.hdr EXCEPT !.history = q.history, !.deflate = q.deflate,
                            !.files = [i \in DOMAIN r.hdr.files |-> IF alt THEN [r.hdr.files[i] EXCEPT !.n = Alt(r.hdr.files[i])] ELSE r.hdr.files[i]]]
  IN [run |-> run0, hdr |-> hdr0, obs |-> r.obs, loose |-> r.loose]
(* for debugging, chunks along dimensions that are reduced are left out *)
Undebugged(a, O, q) == IF ~q.debug THEN a ELSE [a EXCEPT !.run.chunks = SelectSeq(a.run.chunks, LAMBDA c : c[1] \notin SumLike(a, O) \/ c[2] < 1)]
NoOutput(r) == FileNames(r) = {} /\ r.obs.other = <<>>
Refusal(r, accepted, written) == Clause(r.obs.err # "", accepted) \cup Clause(NoOutput(r), written)
AllExpected(a, O) == UNION {ExpectedWarn(a, O, i) \cup MeanWarn(a, O, i) : i \in O.files}
WarnExact(a, O) == \A i \in O.files : MeanExact(a, O, i) /\ \A n \in O.names[i] : Exact(O, n)
HasMean(a) == \E i \in DOMAIN a.run.vars : a.run.vars[i].mmin # <<>> \/ a.run.vars[i].mmax # <<>>
Plain(O) == O.described /\ O.bad = {} /\ O.planned /\ O.badfile = {}
JudgeRequest(r, q) ==
  LET a0 == Asked(r, q) IN
  IF InputFiles(r, q) = {} THEN Clause(NoOutput(r), "output_without_inputs") \cup Clause(r.obs.err = "" \/ BadHeader(a0) \/ ~Described(a0.run), "valid_specification_refused")
  ELSE IF \E i \in InputFiles(r, q) : r.files[i].f = -1 THEN Refusal(r, "input_that_is_no_data_accepted", "output_of_unreadable_input")
  ELSE IF ~(ModsGiven(r, q) \subseteq Loadable(r)) THEN Refusal(r, "missing_module_accepted", "output_without_module")
  ELSE IF BadHeader(a0) THEN Refusal(r, "undeclarable_header_accepted", "undeclarable_header_written")
  ELSE LET O == Outcome(a0.run) a == Undebugged(a0, O, q) IN
       IF O.unmodelled # {} THEN {}
       \* a definition that needs a module that is not given
       ELSE IF ~({"../m/" \o r.needs[i] : i \in DOMAIN r.needs} \subseteq ModsGiven(r, q)) THEN {}
       ELSE IF BadLevel(a) THEN Clause(r.obs.err # "" \/ O.files = {}, "bad_compression_accepted") \cup Clause(NoOutput(r), "bad_compression_written")
       ELSE IF q.error /\ Plain(O) /\ ~ChunkRefused(a, O) /\ (~WarnExact(a, O) \/ AllExpected(a, O) # {} \/ (a.run.chunks # <<>> /\ HasMean(a))) THEN
            (IF ~WarnExact(a, O) \/ (a.run.chunks # <<>> /\ HasMean(a)) THEN {}
             ELSE Clause(r.obs.err # "", "failed_validation_accepted")
                  \cup Clause(\A i \in O.files : (ExpectedWarn(a, O, i) \cup MeanWarn(a, O, i) = {}) \/ a.run.files[i].n \notin FileNames(r), "invalid_file_finished"))
       ELSE (JudgeRun(a, O) \ {"dimension_map"})
            \cup (IF O.bad # {} \/ ~O.planned \/ ChunkRefused(a, O) THEN {} ELSE UNION {JudgeHeader(a, O, i) : i \in {j \in O.files \ O.badfile : a.run.files[j].n \in FileNames(r)}})
JudgeRecord(r) ==
  LET q == Reading(r.argv) IN
  IF ~q.ok THEN Refusal(r, "malformed_arguments_accepted", "output_of_malformed_arguments")
  ELSE IF q.help THEN Clause(NoOutput(r), "output_of_help")
  ELSE IF Std(q) \notin {"../spec.json", "../alt.json"} THEN Refusal(r, "missing_specification_accepted", "output_without_specification")
  ELSE JudgeRequest(r, q) \cup Clause(r.obs.serial = <<>> \/ r.obs.serial[1] = q.serial, "serial_not_as_asked")
Count(r, c) == Cardinality({i \in DOMAIN r.argv : Len(r.argv[i]) > 1 /\ r.argv[i][1] = "-" /\ (r.argv[i][2] = c \/ (Len(r.argv[i]) > 4 /\ r.argv[i][2] = "-" /\ SubSeq(r.argv[i], 3, 5) = (IF c = "d" THEN <<"d","e","f">> ELSE <<"c","h","u">>)))})
TagsCli(r) ==
  LET q == Reading(r.argv) IN
  IF ~q.ok THEN {"malformed"} ELSE IF q.help THEN {"help"}
  ELSE IF Std(q) = "" THEN {"std_absent"} ELSE IF Std(q) = "../broken.json" THEN {"std_broken"} ELSE IF Std(q) \notin {"../spec.json", "../alt.json"} THEN {"std_missing"}
  ELSE LET S == InputFiles(r, q)
           data == {i \in DOMAIN r.files : r.files[i].f >= 0}
       IN Tag(S = {}, "inputs_none") \cup Tag(data \subseteq S, "inputs_all") \cup Tag(S # {} /\ ~(data \subseteq S), "inputs_some")
          \cup Tag(\E k \in DOMAIN q.inputs : ~\E i \in DOMAIN r.files : Matches(q.inputs[k], r.files[i].p), "pattern_unmatched")
          \cup Tag(\E i \in S : r.files[i].f = -1, "not_netcdf") \cup Tag("../m/nosuch.py" \in ModsGiven(r, q), "module_file_missing") \cup Tag("../m/broken.py" \in ModsGiven(r, q), "module_broken")
          \cup Tag(r.needs # <<>> /\ ~({"../m/" \o r.needs[i] : i \in DOMAIN r.needs} \subseteq ModsGiven(r, q)), "module_needed_missing")
          \cup Tag(Std(q) = "../alt.json", "std_last") \cup Tag(Cardinality({i \in DOMAIN r.argv : Len(r.argv[i]) > 5}) > 3, "several_std") \cup Tag(q.serial, "serial") \cup Tag(~q.serial, "not_serial")
          \cup Tag(r.obs.ranks > 1, "ranks")
          \cup (IF S = {} \/ \E i \in S : r.files[i].f = -1 THEN {} ELSE
               LET a == Asked(r, q) IN IF BadHeader(a) THEN {} ELSE
               LET O == Outcome(a.run) t == TagsRun(a, O)
               IN t \cup Tag(BadLevel(a), "bad_level")
                    \cup (IF "written" \notin t THEN {} ELSE Tag(q.deflate # <<>>, "override") \cup Tag(q.history, "history") \cup Tag(~q.history, "no_history") \cup Tag(r.needs # <<>>, "module")
                                                      \cup Tag(q.error, "error_passed") \cup Tag(q.debug, "debug") \cup Tag(Undebugged(a, O, q) # a, "debug_dropped")
                                                      \cup Tag(Count(r, "d") > 1, "deflate_twice") \cup Tag(Count(r, "c") > 1, "chunk_twice"))
                    \cup Tag(r.obs.ranks > 1 /\ q.error /\ r.obs.err # "" /\ O.unmodelled = {} /\ Plain(O) /\ AllExpected(a, O) # {}, "ranks_failed")
                    \cup Tag(q.error /\ r.obs.err # "" /\ O.unmodelled = {} /\ Plain(O) /\ AllExpected(a, O) # {}, "error_failed"))
AssessRecord(r) == [bad |-> JudgeRecord(r), tags |-> TagsCli(r)]
=============================================================================
