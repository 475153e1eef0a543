----------------------------- MODULE MC_Datasets -----------------------------
(* Files enter a description one at a time, in any order: a file that contradicts what is described so far ends    *)
(* it.  Whatever the order, the outcome is the one of module Datasets.                                           *)
EXTENDS Datasets, TLC
CONSTANTS NFiles, Rich
Sizes == {-1, 1, 2}
DimDescs(n) == {[n |-> n, size |-> s, unlim |-> u] : s \in Sizes, u \in IF Rich THEN BOOLEAN ELSE {FALSE}}
VarDescs(n) == {[n |-> n, t |-> t, dims |-> d] : t \in {"f", "i"}, d \in {<<>>, <<"x">>, <<"y">>, <<"x", "y">>, <<"y", "x">>}}
One(n) == {{}} \cup {{v} : v \in VarDescs(n)}
DimChoices == IF Rich THEN {{a, b} : a \in DimDescs("x"), b \in DimDescs("y")} ELSE {{a, [n |-> "y", size |-> 1, unlim |-> FALSE]} : a \in DimDescs("x")}
FileOf(k, D, V) == [n |-> k, dims |-> D, vars |-> V]
Files(k) == {FileOf(k, D, V \cup W) : D \in DimChoices, V \in One("v"), W \in (IF Rich THEN {{}, {[n |-> "w", t |-> "f", dims |-> <<"x">>]}} ELSE {{}})}
VARIABLES todo, acc, refused, all
Init == todo \in {{f[k] : k \in 1 .. NFiles} : f \in {g \in [1 .. NFiles -> UNION {Files(k) : k \in 1 .. NFiles}] : \A k \in 1 .. NFiles : g[k].n = k}} /\ acc = {} /\ refused = FALSE /\ all = todo
(* the description so far, as a file *)
AsFile(D) == [n |-> 0, dims |-> D.dims, vars |-> {[n |-> v.n, t |-> v.t, dims |-> v.dims] : v \in D.vars}]
Take(f) == /\ f \in todo /\ ~refused
           /\ todo' = todo \ {f} /\ all' = all
           /\ IF acc # {} /\ Contradict(AsFile(Describe(acc)), f) THEN refused' = TRUE /\ acc' = acc ELSE refused' = FALSE /\ acc' = acc \cup {f}
Next == \E f \in todo : Take(f)
Spec == Init /\ [][Next]_<<todo, acc, refused, all>>
(* --- checked *)
Sound == ~refused => Consistent(acc)
(* the order in which files are given does not matter *)
OrderFree == (refused => ~Consistent(all)) /\ (todo = {} /\ ~refused => Consistent(all) /\ acc = all)
AllVars == ~refused /\ acc # {} => {v.n : v \in Describe(acc).vars} = UNION {{v.n : v \in f.vars} : f \in acc}
InFiles == ~refused => \A v \in Describe(acc).vars : v.in # {} /\ \A k \in v.in : \E f \in acc : f.n = k /\ \E w \in f.vars : w.n = v.n /\ w.t = v.t /\ w.dims = v.dims
DimsKnown == ~refused /\ acc # {} => \A v \in Describe(acc).vars : \A k \in DOMAIN v.dims : \E d \in Describe(acc).dims : d.n = v.dims[k]
OneLength == ~refused => \A d, e \in Describe(acc).dims : d.n = e.n => d = e
Lengths == ~refused => \A f \in acc : \A d \in DimsIn(f) : d.size >= 0 => d \in Describe(acc).dims
=============================================================================
