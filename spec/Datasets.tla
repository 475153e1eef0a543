------------------------------ MODULE Datasets ------------------------------
(* Descriptions of sets of files.  A file: [n, dims: set of [n, size (0: not known), unlim], vars: set of          *)
(* [n, t, dims <<..>>, at]].  Only dimensions that some variable of the file uses belong to its description.       *)
EXTENDS Integers, Sequences, FiniteSets
RangeOf(s) == {s[i] : i \in DOMAIN s}
DimsIn(f) == {d \in f.dims : \E v \in f.vars : d.n \in RangeOf(v.dims)}
Contradict(a, b) ==
  \/ \E d \in DimsIn(a), e \in DimsIn(b) : d.n = e.n /\ d.size >= 0 /\ e.size >= 0 /\ (d.size # e.size \/ d.unlim # e.unlim)
  \/ \E v \in a.vars, w \in b.vars : v.n = w.n /\ (v.t # w.t \/ v.dims # w.dims)
Consistent(F) == \A a, b \in F : ~Contradict(a, b)
(* what is known of a dimension: one file may know its length and another not (length below zero) *)
Known(D) == LET S == {d \in D : d.size >= 0} IN IF S = {} THEN CHOOSE d \in D : TRUE ELSE CHOOSE d \in S : TRUE
Describe(F) ==
  LET D == UNION {DimsIn(f) : f \in F}
      V == UNION {f.vars : f \in F}
  IN [dims |-> {Known({d \in D : d.n = n}) : n \in {d.n : d \in D}},
      vars |-> {[n |-> n, t |-> (CHOOSE v \in V : v.n = n).t, dims |-> (CHOOSE v \in V : v.n = n).dims, in |-> {f.n : f \in {g \in F : \E v \in g.vars : v.n = n}}] : n \in {v.n : v \in V}}]
=============================================================================
