------------------------------ MODULE Check_C25 ------------------------------
(* Conversions with character variables: everything is judged.                                                      *)
EXTENDS Judge
IsChar(v) == v.ot = "S1"
TagsChars(r, O) ==
  LET ok == r.obs.err = "" /\ O.unmodelled = {} /\ O.bad = {} /\ O.planned /\ O.badfile = {}
      W == {n \in UNION {O.names[i] : i \in O.files} : IsChar(VarOf(r.run, n))}
      last(n) == LET d == VarOf(r.run, n).dims IN d[Len(d)]
      sh(n) == O.out[n].shape
  IN IF ~ok THEN Tag(\E n \in O.made : IsChar(VarOf(r.run, n)) /\ O.defs[n].err = "characters", "arithmetic")
                 \cup Tag(\E n \in O.made : O.planned /\ IsChar(VarOf(r.run, n)) /\ O.out[n].err = "units", "units")
                 \cup Tag(\E n \in O.made : O.planned /\ O.out[n].err = "type" /\ IsChar(VarOf(r.run, n)), "number_as_char")
                 \cup Tag(\E n \in O.made : O.planned /\ O.out[n].err = "type" /\ O.defs[n].dt = "c", "char_as_number")
     ELSE Tag(W # {}, "chars") \cup Tag(\E n \in W : VarOf(r.run, n).kind = "data", "strings_given") \cup Tag(\E n \in W : VarOf(r.run, n).kind = "def", "strings_read")
          \cup Tag(\E n \in W : sh(n)[Len(sh(n))] < O.lens[last(n)], "padded") \cup Tag(\E n \in W : VarOf(r.run, n).kind = "data" /\ sh(n)[Len(sh(n))] < O.lens[last(n)], "given_padded")
          \cup Tag(\E n \in W : VarOf(r.run, n).kind = "data" /\ VarOf(r.run, n).shape[Len(sh(n))] = 1, "single_characters")
          \cup Tag(\E n \in W : Missing \in SetOf(O.out[n].c), "shorter")
          \cup Tag(\E n \in W : \A k \in DOMAIN O.out[n].c : O.out[n].c[k] = Missing, "only_empty")
          \cup Tag(\E i \in O.files : \E n \in W \cap O.names[i] : O.rev[i] \cap SetOf(VarOf(r.run, n).dims) # {}, "chars_inverted")
          \cup Tag(\E n \in W : VarOf(r.run, n).kind = "def" /\ [j \in DOMAIN O.defs[n].dims |-> ToOut(O.o2i, O.defs[n].dims[j])] # VarOf(r.run, n).dims, "chars_transposed")
          \cup Tag(\E n \in W : \E k \in DOMAIN r.run.chunks : r.run.chunks[k][1] = last(n), "length_chunked")
          \cup Tag(\E n \in W : \E k \in DOMAIN r.run.chunks : r.run.chunks[k][1] # last(n) /\ r.run.chunks[k][1] \in SetOf(VarOf(r.run, n).dims), "chars_chunked")
          \cup Tag(\E n \in W : VarOf(r.run, n).kind = "def" /\ VarOf(r.run, n).ast.x # <<>>, "chars_indexed") \cup Tag(\E n \in W : Len(VarOf(r.run, n).dims) > 2, "chars_three_dims")
          \cup Tag(\E n \in W : VarOf(r.run, n).fill # <<>>, "chars_filler")
AssessRecord(r) == LET O == Outcome(r.run) IN [bad |-> JudgeRun(r, O), tags |-> TagsRun(r, O) \cup TagsChars(r, O)]
=============================================================================
