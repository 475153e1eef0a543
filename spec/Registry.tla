------------------------------ MODULE Registry ------------------------------
(* Functions are classes; a class has a name, its own key or that of its first base, and bases.  root is the base of all. *)
(* State: the set of classes loaded so far (sequence of [id, key ("" if it has none of its own), bases]).          *)
EXTENDS Integers, Sequences, FiniteSets, TLC
Root == "Function"
RootKey == "func"
ClassOf(cs, id) == cs[CHOOSE i \in DOMAIN cs : cs[i].id = id]
Known(cs, id) == \E i \in DOMAIN cs : cs[i].id = id
RECURSIVE KeyOf(_, _)
KeyOf(cs, id) == IF id = Root THEN RootKey
                 ELSE IF ~Known(cs, id) THEN ""
                 ELSE LET c == ClassOf(cs, id) IN IF c.key # "" THEN c.key ELSE IF c.bases = <<>> THEN "" ELSE KeyOf(cs, c.bases[1])
(* does the class descend from the root, at any depth *)
RECURSIVE IsFunction(_, _)
IsFunction(cs, id) == id = Root \/ (Known(cs, id) /\ \E i \in DOMAIN ClassOf(cs, id).bases : IsFunction(cs, ClassOf(cs, id).bases[i]))
Functions(cs) == {c \in {cs[i].id : i \in DOMAIN cs} : IsFunction(cs, c)}
Named(cs, key) == {c \in Functions(cs) : KeyOf(cs, c) = key}
(* the function of a name, or why there is none *)
Resolve(cs, key) == LET N == Named(cs, key) IN
  IF N = {} THEN [ok |-> FALSE, id |-> "unknown"] ELSE IF Cardinality(N) > 1 THEN [ok |-> FALSE, id |-> "several"] ELSE [ok |-> TRUE, id |-> CHOOSE c \in N : TRUE]
Names(cs) == {KeyOf(cs, c) : c \in Functions(cs)}
(* operators: symbol and number of operands *)
Operators == [s \in {"-", "+", "*", "/", "**"} |-> IF s = "-" THEN {1, 2} ELSE {2}]
ResolveOp(s, n) == IF s \notin DOMAIN Operators THEN FALSE ELSE IF n = 0 THEN Cardinality(Operators[s]) = 1 ELSE n \in Operators[s]
=============================================================================
