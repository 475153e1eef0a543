------------------------------ MODULE PySlice ------------------------------
(* Index expressions with Python semantics, and the positions they select.                                      *)
(* An index element is [k |-> "i", v |-> integer], [k |-> "s", a, b, c] with a, b, c each <<>> (absent) or      *)
(* <<integer>>, or [k |-> "e"] (ellipsis).  An index is a sequence of elements; positions count from 0.         *)
EXTENDS Integers, Sequences, FiniteSets
FullSlice == [k |-> "s", a |-> <<>>, b |-> <<>>, c |-> <<>>]
EmptySlice == [k |-> "s", a |-> <<0>>, b |-> <<0>>, c |-> <<>>]
Range(a, b, c) == IF c > 0 THEN [i \in 1 .. (IF b > a THEN (b - a + c - 1) \div c ELSE 0) |-> a + (i - 1) * c]
                  ELSE [i \in 1 .. (IF a > b THEN (a - b + (-c) - 1) \div (-c) ELSE 0) |-> a + (i - 1) * c]
Step(s) == IF s.c = <<>> THEN 1 ELSE s.c[1]
Clamp(x, lo, hi) == IF x < lo THEN lo ELSE IF x > hi THEN hi ELSE x
Lower(s) == IF Step(s) > 0 THEN 0 ELSE -1
Upper(s, n) == IF Step(s) > 0 THEN n ELSE n - 1
Bound(x, s, n) == Clamp(IF x < 0 THEN x + n ELSE x, Lower(s), Upper(s, n))
Start(s, n) == IF s.a = <<>> THEN (IF Step(s) > 0 THEN Lower(s) ELSE Upper(s, n)) ELSE Bound(s.a[1], s, n)
Stop(s, n) == IF s.b = <<>> THEN (IF Step(s) > 0 THEN Upper(s, n) ELSE Lower(s)) ELSE Bound(s.b[1], s, n)
(* positions selected by a slice on an axis of length n *)
SlicePos(s, n) == Range(Start(s, n), Stop(s, n), Step(s))
IntOK(v, n) == -n <= v /\ v < n
(* an element selects positions; integers remove the axis *)
ElemPos(e, n) == IF e.k = "i" THEN <<IF e.v < 0 THEN e.v + n ELSE e.v>> ELSE SlicePos(e, n)
ElemOK(e, n) == e.k = "i" => IntOK(e.v, n)
Fills(n) == [i \in 1 .. n |-> FullSlice]
Ellipses(idx) == {i \in 1 .. Len(idx) : idx[i].k = "e"}
(* expansion to one element per axis: [ok, idx].  A rank-0 array accepts any index. *)
Expand(idx, nd) ==
  IF nd = 0 THEN [ok |-> TRUE, idx |-> <<>>]
  ELSE LET E == Ellipses(idx) IN
       IF E = {} THEN IF Len(idx) > nd THEN [ok |-> FALSE, idx |-> <<>>] ELSE [ok |-> TRUE, idx |-> idx \o Fills(nd - Len(idx))]
       ELSE IF Cardinality(E) > 1 \/ Len(idx) - 1 > nd THEN [ok |-> FALSE, idx |-> <<>>]
       ELSE LET p == CHOOSE p \in E : TRUE
            IN [ok |-> TRUE, idx |-> SubSeq(idx, 1, p - 1) \o Fills(nd - Len(idx) + 1) \o SubSeq(idx, p + 1, Len(idx))]
(* flat arrays *)
RECURSIVE Prod(_)
Prod(s) == IF s = <<>> THEN 1 ELSE s[1] * Prod(Tail(s))
RECURSIVE Strides(_)
Strides(shape) == IF shape = <<>> THEN <<>> ELSE <<Prod(Tail(shape))>> \o Strides(Tail(shape))
(* flat positions (0-based, row major) selected by an expanded index *)
RECURSIVE Flat(_, _)
Flat(poss, strides) ==
  IF poss = <<>> THEN <<0>>
  ELSE LET rest == Flat(Tail(poss), Tail(strides)) m == Len(rest)
       IN [i \in 1 .. (Len(poss[1]) * m) |-> poss[1][((i - 1) \div m) + 1] * strides[1] + rest[((i - 1) % m) + 1]]
RECURSIVE SeqFilter(_, _)
SeqFilter(s, keep) == IF s = <<>> THEN <<>> ELSE (IF keep[1] THEN <<s[1]>> ELSE <<>>) \o SeqFilter(Tail(s), Tail(keep))
(* Select: [ok, pos (flat positions into the original), shape] *)
Select(idx, shape) ==
  LET x == Expand(idx, Len(shape)) IN
  IF ~x.ok \/ \E i \in DOMAIN x.idx : ~ElemOK(x.idx[i], shape[i]) THEN [ok |-> FALSE, pos |-> <<>>, shape |-> <<>>, keep |-> <<>>]
  ELSE LET poss == [i \in DOMAIN x.idx |-> ElemPos(x.idx[i], shape[i])]
           keep == [i \in DOMAIN x.idx |-> x.idx[i].k # "i"]
       IN [ok |-> TRUE, pos |-> Flat(poss, Strides(shape)), keep |-> keep,
           shape |-> SeqFilter([i \in DOMAIN poss |-> Len(poss[i])], keep)]
(* first idx1, then idx2 on its result *)
SelectTwice(i1, i2, shape) ==
  LET a == Select(i1, shape) IN
  IF ~a.ok THEN a
  ELSE LET b == Select(i2, a.shape) IN
       IF ~b.ok THEN b ELSE [ok |-> TRUE, pos |-> [i \in DOMAIN b.pos |-> a.pos[b.pos[i] + 1]], shape |-> b.shape, keep |-> b.keep]
(* an index given by dimension names: a sequence of [d, e]; dimensions not named are taken whole, others ignored *)
RECURSIVE Named(_, _)
Named(d, pairs) == IF pairs = <<>> THEN FullSlice ELSE IF pairs[1].d = d THEN pairs[1].e ELSE Named(d, Tail(pairs))
FromNames(pairs, dims) == [i \in DOMAIN dims |-> Named(dims[i], pairs)]
(* a request: [t |-> "none"] (no data), [t |-> "tuple", x |-> index], [t |-> "dict", x |-> pairs] *)
Request(q, dims) == IF q.t = "none" THEN [i \in DOMAIN dims |-> EmptySlice]
                    ELSE IF q.t = "dict" THEN FromNames(q.x, dims) ELSE q.x
SelectReq(q, dims, shape) == Select(Request(q, dims), shape)
=============================================================================
