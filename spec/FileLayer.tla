------------------------------ MODULE FileLayer ------------------------------
(* The file access layer as a machine: files under construction, and operations on them and on existing files.      *)
(*  file: [fmt (of the file), level (of compression), gattrs, dims, vars]; dims: name -> [len, unl];                  *)
(*  vars: name -> [type, dims, attrs, fill, c]; attrs: <<[k, v]>> in any order; c: coordinates -> written cell         *)
EXTENDS Rat, FiniteSets, TLC
SetOf(s) == {s[i] : i \in DOMAIN s}
Keys(a) == {a[i].k : i \in DOMAIN a}
Val(a, k) == a[CHOOSE i \in DOMAIN a : a[i].k = k].v
SameAttrs(a, b) == Keys(a) = Keys(b) /\ \A k \in Keys(a) : Val(a, k) = Val(b, k)
SetAttr(a, k, v) == SelectSeq(a, LAMBDA x : x.k # k) \o <<[k |-> k, v |-> v]>>
RECURSIVE SetAll(_, _)
SetAll(a, b) == IF b = <<>> THEN a ELSE SetAll(SetAttr(a, b[1].k, IF b[1].k = "history" THEN "s:Standardized" \o "\n" \o b[1].text ELSE b[1].v), Tail(b))
(* what the names of formats mean *)
FormatOf(n) == CASE n = "netcdf" -> "NETCDF3_CLASSIC" [] n = "netcdfLarge" -> "NETCDF3_64BIT_OFFSET" [] OTHER -> "NETCDF4_CLASSIC"
LevelOf(n) == CASE n = "netcdf4c" -> 1 [] n = "netcdf4c0" -> 0 [] n = "netcdf4c1" -> 1 [] n = "netcdf4c2" -> 2 [] n = "netcdf4c5" -> 5 [] n = "netcdf4c9" -> 9 [] OTHER -> 0
NewFile(fmt, hist) == [fmt |-> FormatOf(fmt), level |-> LevelOf(fmt), gattrs |-> <<[k |-> "history", v |-> hist]>>, dims |-> <<>>, vars |-> <<>>]
Add(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]
NewVar(v) == [type |-> v.type, dims |-> v.dims, attrs |-> v.attrs, fill |-> v.fill, c |-> <<>>]
(* --- shapes and coordinates *)
RECURSIVE ProdSeq(_)
ProdSeq(s) == IF s = <<>> THEN 1 ELSE s[1] * ProdSeq(Tail(s))
RECURSIVE CoordsIn(_, _)
CoordsIn(k, sh) == IF sh = <<>> THEN <<>> ELSE LET p == ProdSeq(Tail(sh)) IN <<k \div p>> \o CoordsIn(k % p, Tail(sh))
FlatIn(co, sh) == LET F[i \in 0 .. Len(sh)] == IF i = 0 THEN 0 ELSE F[i - 1] * sh[i] + co[i] IN F[Len(sh)]
ShapeOf(f, dims) == [i \in DOMAIN dims |-> f.dims[dims[i]].len]
(* writing cells (values v of shape sh) at the coordinates after the prefix pre; unlimited dimensions grow *)
Grow(f, dims, pre, sh) ==
  [d \in DOMAIN f.dims |-> IF \E i \in DOMAIN dims : dims[i] = d /\ f.dims[d].unl
     THEN LET i == CHOOSE j \in DOMAIN dims : dims[j] = d n == IF i <= Len(pre) THEN pre[i] + 1 ELSE sh[i - Len(pre)] IN [f.dims[d] EXCEPT !.len = MaxOf(@, n)]
     ELSE f.dims[d]]
Put(f, n, pre, sh, v) ==
  LET x == f.vars[n] new == {<<pre \o CoordsIn(k - 1, sh), v[k]>> : k \in DOMAIN v} dom == {p[1] : p \in new}
      c == [co \in DOMAIN x.c \cup dom |-> IF co \in dom THEN v[FlatIn(SubSeq(co, Len(pre) + 1, Len(co)), sh) + 1] ELSE x.c[co]]
  IN [f EXCEPT !.vars = Add(f.vars, n, [x EXCEPT !.c = c]), !.dims = Grow(f, x.dims, pre, sh)]
CellAt(f, n, co) == IF co \in DOMAIN f.vars[n].c THEN f.vars[n].c[co] ELSE Missing
CellsOf(f, n) == LET sh == ShapeOf(f, f.vars[n].dims) IN [k \in 1 .. ProdSeq(sh) |-> CellAt(f, n, CoordsIn(k - 1, sh))]
(* --- existing files, as records give them *)
SrcVar(s, n) == s.vars[CHOOSE i \in DOMAIN s.vars : s.vars[i].n = n]
SrcDim(s, d) == s.dims[CHOOSE i \in DOMAIN s.dims : s.dims[i].n = d]
SrcShape(s, v) == [i \in DOMAIN v.dims |-> SrcDim(s, v.dims[i]).len]
(* --- defining a file like another one: its attributes and dimensions, variables copied, one variable defined *)
RECURSIVE DefineVars(_, _, _)
DefineVars(f, s, ms) == IF ms = <<>> THEN f ELSE DefineVars([f EXCEPT !.vars = Add(f.vars, ms[1], NewVar(SrcVar(s, ms[1])))], s, Tail(ms))
RECURSIVE CopyVars(_, _, _)
CopyVars(f, s, ms) == IF ms = <<>> THEN f ELSE LET v == SrcVar(s, ms[1]) IN CopyVars(Put(f, ms[1], <<>>, SrcShape(s, v), v.c), s, Tail(ms))
Define(f, s, var, meta, tvar) ==
  LET D == [d \in {s.dims[i].n : i \in DOMAIN s.dims} |-> IF d = "time" THEN [len |-> 0, unl |-> TRUE] ELSE [len |-> SrcDim(s, d).len, unl |-> FALSE]]
      f1 == [f EXCEPT !.gattrs = SetAll(@, s.gattrs), !.dims = [d \in DOMAIN f.dims \cup DOMAIN D |-> IF d \in DOMAIN D THEN D[d] ELSE f.dims[d]]]
      f2 == DefineVars(f1, s, meta)
      f3 == [f2 EXCEPT !.vars = Add(f2.vars, var, NewVar(SrcVar(s, tvar)))]
  IN CopyVars(f3, s, meta)
(* --- one operation on the files under construction, F: name -> file; S: the existing files *)
Src(S, n) == S[CHOOSE i \in DOMAIN S : S[i].n = n]
Where(o) == IF o.index = -99 THEN 0 ELSE o.index
Step(F, S, o) ==
  CASE o.op = "create" -> Add(F, o.f, NewFile(o.fmt, o.hist))
    [] o.op = "dim" -> [F EXCEPT ![o.f] = [@ EXCEPT !.dims = Add(@, o.d, [len |-> o.len, unl |-> o.unl])]]
    [] o.op = "var" -> [F EXCEPT ![o.f] = [@ EXCEPT !.vars = Add(@, o.v.n, NewVar(o.v))]]
    [] o.op = "define" -> [F EXCEPT ![o.f] = Define(@, Src(S, o.s), o.var, o.meta, o.tvar)]
    [] o.op = "write" -> [F EXCEPT ![o.f] = Put(@, o.var, <<Where(o)>>, IF o.var = "time" THEN <<>> ELSE o.shape, IF o.var = "time" THEN <<o.c[1]>> ELSE o.c)]
    [] o.op = "copy" -> [F EXCEPT ![o.f] = LET s == Src(S, o.s) v == SrcVar(s, o.from) IN Put(@, o.var, <<>>, SrcShape(s, v), v.c)]
    [] OTHER -> F
RECURSIVE RunOps(_, _, _)
RunOps(F, S, ops) == IF ops = <<>> THEN F ELSE RunOps(TLCEval(Step(F, S, ops[1])), S, Tail(ops))
=============================================================================
