------------------------------ MODULE Machine ------------------------------
(* A machine with registers that hold physical arrays, and the operations on them: the state is a function from   *)
(* register names to arrays, an operation gives a result (a new array or the new content of its target) and        *)
(* leaves every other register as it is.                                                                           *)
(* Operations: [o, a: operand, b: operand, ...], an operand is [t: "reg", n] or [t: "num", v, k].                   *)
EXTENDS Denote
Get(regs, x) == IF x.t = "reg" THEN regs[x.n] ELSE Scalar(x.v, x.k)
RFloor(x) == IF ~IsNum(x) THEN x ELSE <<x[1] \div x[2], 1>>
(* the quotient of reals is not exact: one that is a whole number can be rounded to either side *)
RFloorReal(x) == IF IsNum(x) /\ x[2] = 1 THEN Unknown ELSE RFloor(x)
FloorDivA(A, B) == LET D == DivA(A, B) IN IF D.err # "" THEN D ELSE IF DtOf(A, B) = "i" THEN [MapCells(D, RFloor) EXCEPT !.dt = "i"] ELSE MapCells(D, RFloorReal)
InvertA(A) == IF A.err # "" THEN A ELSE [MapCells(A, RInv) EXCEPT !.u = UDiv(UOne, A.u), !.dt = "f"]
(* in place: the right operand must fit into the left one, which keeps its kind of number *)
InPlaceOK(A, B) == \A d \in SetOf(B.dims) \ SetOf(A.dims) : SizeOf(B, d) <= 1
InPlace(A, B, R) == IF A.err # "" \/ B.err # "" THEN R ELSE IF ~InPlaceOK(A, B) THEN Refused("dims")
                    ELSE IF R.err = "" /\ A.dt = "i" /\ R.dt = "f"
                         \* whole numbers of steps may stay whole numbers when they are counted from another date
                         THEN Refused(IF B.dt = "i" /\ IsTimeRef(A.u) /\ IsTimeRef(B.u) THEN "unmodelled" ELSE "type") ELSE R
(* assignment of B (converted, transposed) or of a number to the selected cells *)
Assign(A, q, B, isnum) ==
  IF A.err # "" THEN A
  ELSE LET s == SelectReq(q, A.dims, A.shape) IN
       IF ~s.ok THEN Refused("index")
       ELSE LET V == IF isnum THEN B ELSE Transpose(Conv(B, A.u), A.dims) IN
            IF V.err # "" THEN V
            \* arrays of length one stretch
            ELSE IF ~isnum /\ V.shape # s.shape THEN Refused(IF 1 \in SetOf(V.shape) THEN "unmodelled" ELSE "shape")
            ELSE [A EXCEPT !.c = TLCEval([k \in DOMAIN A.c |->
                    IF \E i \in DOMAIN s.pos : s.pos[i] + 1 = k
                    THEN (IF isnum THEN V.c[1] ELSE V.c[CHOOSE i \in DOMAIN s.pos : s.pos[i] + 1 = k]) ELSE A.c[k]])]
FnOf(op, A, regs) ==
  CASE op.f \in Reducing -> Reduce(A, op.f, {op.dims[i] : i \in DOMAIN op.dims})
    [] op.f = "sqrt" -> SqrtA(A)
    [] op.f \in {"up", "down"} -> Toward(A, op.f)
    [] op.f = "rmunits" -> IF A.err # "" THEN A ELSE [A EXCEPT !.u = UOne]
    [] op.f = "chunits" -> LET ku == KwVal(op, "units") IN
            ChUnits(A, op, IF ku = <<>> THEN <<>> ELSE IF ku[1].t = "str" THEN <<[Scalar(One, "f") EXCEPT !.u = UnitOf(ku[1].u)]>> ELSE <<Get(regs, ku[1])>>)
    [] op.f = "limit" -> LimitA(A, op.below, op.above)
    [] op.f = "chdims" -> ChDims(A, op.dims)
    [] OTHER -> Refused("function")
(* [res: the result, target: the register that holds it ("" if it is new)] *)
Result(regs, op) ==
  LET A == Get(regs, op.a)
      B == Get(regs, op.b)
      out(R) == [res |-> R, target |-> ""]
      into(R) == [res |-> R, target |-> op.a.n]
  IN CASE op.o = "add" -> out(AddA(A, B))
       [] op.o = "sub" -> out(SubA(A, B))
       [] op.o = "mul" -> out(MulA(A, B))
       [] op.o = "div" -> out(DivA(A, B))
       [] op.o = "floordiv" -> out(FloorDivA(A, B))
       [] op.o = "pow" -> out(PowA(A, B))
       [] op.o = "neg" -> out(NegA(A))
       [] op.o = "invert" -> out(InvertA(A))
       [] op.o = "convert" -> out(Conv(A, UnitOf(op.u)))
       [] op.o = "transpose" -> out(Transpose(A, op.dims))
       [] op.o = "get" -> out(Pick(A, op.q))
       [] op.o = "mean" -> out(Reduce(A, "mean", {op.dims[i] : i \in DOMAIN op.dims}))
       [] op.o = "sum" -> out(Reduce(A, "sum", {op.dims[i] : i \in DOMAIN op.dims}))
       [] op.o = "copy" -> out(A)
       [] op.o = "fn" -> out(Pick(FnOf(op, A, regs), op.q))
       [] op.o = "iadd" -> into(InPlace(A, B, AddA(A, B)))
       [] op.o = "isub" -> into(InPlace(A, B, SubA(A, B)))
       [] op.o = "imul" -> into(InPlace(A, B, MulA(A, B)))
       [] op.o = "idiv" -> into(InPlace(A, B, DivA(A, B)))
       [] op.o = "ipow" -> into(InPlace(A, B, PowA(A, B)))
       [] op.o = "up" -> into(Toward(A, "up"))
       [] op.o = "down" -> into(Toward(A, "down"))
       [] op.o = "flip" -> into(Flip(A))
       [] op.o = "set" -> into(Assign(A, op.q, B, op.b.t = "num"))
       [] OTHER -> out(Refused("operation"))
(* the transition *)
Next1(regs, op, newname) == LET r == Result(regs, op) IN
  IF r.res.err # "" THEN regs ELSE (IF r.target = "" THEN newname ELSE r.target) :> r.res @@ regs
=============================================================================
