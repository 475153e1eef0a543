------------------------------ MODULE Check_C03 ------------------------------
(* Records of the real index functions:                                                                         *)
(*  "join":  shape, i1, i2 (indices), err, got (flat positions selected by the combined index), gotshape         *)
(*  "align": shape, dims, q (request), err, got, gotshape     (the aligned index applied to an array)            *)
(*  "item":  the same through an array with named dimensions, gotdims                                            *)
(*  "read":  shape, dims, i1 (index of the definition), q (request), err, got, gotshape, gotdims                 *)
EXTENDS TraceBase, PySlice
DimsKept(dims, keep) == SeqFilter(dims, keep)
Expected(r) ==
  IF r.kind = "join" THEN SelectTwice(r.i1, r.i2, r.shape)
  ELSE IF r.kind = "read" THEN
    LET a == Select(r.i1, r.shape) IN
    IF ~a.ok THEN a ELSE LET b == Select(Request(r.q, DimsKept(r.dims, a.keep)), a.shape) IN
       IF ~b.ok THEN b ELSE [ok |-> TRUE, pos |-> [i \in DOMAIN b.pos |-> a.pos[b.pos[i] + 1]], shape |-> b.shape,
                             keep |-> b.keep, dims |-> SeqFilter(DimsKept(r.dims, a.keep), b.keep)]
  ELSE LET b == SelectReq(r.q, r.dims, r.shape) IN
       IF ~b.ok THEN b ELSE [ok |-> TRUE, pos |-> b.pos, shape |-> b.shape, keep |-> b.keep, dims |-> SeqFilter(r.dims, b.keep)]
JudgeRecord(r) ==
  LET e == Expected(r) IN
  IF ~e.ok THEN Clause(r.err # "", "invalid_index_accepted")
  ELSE IF r.err # "" THEN {"valid_index_refused"}
  ELSE Clause(r.got = e.pos, "cells_selected") \cup Clause(r.gotshape = e.shape, "shape")
       \cup (IF r.kind \in {"item", "read"} THEN Clause(r.gotdims = e.dims, "dimension_names") ELSE {})
TagsRecord(r) == LET e == Expected(r) IN
  {r.kind} \cup Tag(~e.ok, "refused") \cup Tag(e.ok /\ e.pos = <<>>, "empty") \cup Tag(e.ok /\ Len(e.pos) > 1, "several_cells")
  \cup (IF r.kind = "join" THEN Tag(Ellipses(r.i1) # {} \/ Ellipses(r.i2) # {}, "ellipsis") ELSE {"request_" \o r.q.t})
AssessRecord(r) == [bad |-> JudgeRecord(r), tags |-> TagsRecord(r)]
==============================================================================
