---------------------------- MODULE MC_Subgrid ----------------------------
(* A land whose tiles are moved, taken into use, given kinds, weights and values: the laws of what the cells of its map *)
(* get.                                                                                                              *)
EXTENDS Subgrid
CONSTANT N, KINDS, VALUES
NX == 2
Vals == {Missing} \cup {I2R(v) : v \in VALUES}
VARIABLE tiles, listed
vars == <<tiles, listed>>
(* a tile: its place (0: nowhere on the map), kind, whether in use, weight, value *)
Tile == [at : 0 .. NX, kind : KINDS, used : BOOLEAN, w : {0, 1, 2}, v : Vals]
Init == tiles = [i \in 1 .. N |-> [at |-> 1, kind |-> 7, used |-> TRUE, w |-> 1, v |-> Missing]] /\ listed = [x \in 1 .. NX |-> TRUE]
Change(i, f) == tiles' = [tiles EXCEPT ![i] = f] /\ UNCHANGED listed
Move == \E i \in 1 .. N, p \in 0 .. NX : Change(i, [tiles[i] EXCEPT !.at = p])
Turn == \E i \in 1 .. N, k \in KINDS : Change(i, [tiles[i] EXCEPT !.kind = k])
Use == \E i \in 1 .. N : Change(i, [tiles[i] EXCEPT !.used = ~@])
Weigh == \E i \in 1 .. N, w \in {0, 1, 2} : Change(i, [tiles[i] EXCEPT !.w = w])
Give == \E i \in 1 .. N, v \in Vals : Change(i, [tiles[i] EXCEPT !.v = v])
List == \E x \in {1} : listed' = [listed EXCEPT ![x] = ~@] /\ UNCHANGED tiles
Next == Move \/ Turn \/ Use \/ Weigh \/ Give \/ List
Spec == Init /\ [][Next]_vars
(* ---- *)
A1(d, c, dt) == Arr(<<d>>, <<Len(c)>>, c, UOne, "", dt)
Of(G(_)) == [i \in 1 .. N |-> G(tiles[i])]
On(b) == IF b THEN One ELSE Zero
(* cells that are not listed are given numbers outside the map *)
Args(ts) == LET of(G(_)) == [i \in 1 .. N |-> G(ts[i])] IN
  << A1("t", <<Zero>>, "f"), A1("y", <<Zero>>, "f"), A1("x", [i \in 1 .. NX |-> Zero], "f"),
     A1("g", [i \in 1 .. NX |-> I2R(IF listed[i] THEN i ELSE i + 10)], "i"), A1("g", [i \in 1 .. NX |-> One], "i"), A1("g", [i \in 1 .. NX |-> I2R(10 * i)], "f"), A1("g", [i \in 1 .. NX |-> I2R(5)], "f"),
     A1("u", of(LAMBDA q : I2R(10 * q.at)), "f"), A1("u", of(LAMBDA q : I2R(5)), "f"), A1("u", of(LAMBDA q : I2R(q.kind)), "i"),
     A1("u", of(LAMBDA q : On(q.used)), "i"), A1("u", of(LAMBDA q : I2R(q.w)), "f"), A1("k", [i \in 1 .. 4 |-> I2R(i - 1)], "i") >>
Values(ts) == Arr(<<"u", "t">>, <<N, 1>>, [i \in 1 .. N |-> ts[i].v], UOne, "", "f")
Result(ts, type) == LandUnits(Values(ts), type, Args(ts))
All == Result(tiles, "all")
Types == <<"veg", "pasture", "crop", "urban">>
Counts(i) == tiles[i].used /\ tiles[i].w > 0
Urban(x) == {i \in 1 .. N : tiles[i].at = x /\ Counts(i) /\ tiles[i].kind \in {7, 9}}
Clearly == All.err = ""
(* each kind is what the result for all kinds has for it *)
EachOfAll == Clearly => \A k \in 1 .. 4, x \in 1 .. NX : Result(tiles, Types[k]).c[x] = All.c[(k - 1) * NX + x]
NothingOffTheList == Clearly => \A x \in 1 .. NX, k \in 0 .. 3 : ~listed[x] => All.c[k * NX + x] = Missing
NoPasture == Clearly => \A x \in 1 .. NX : All.c[NX + x] = Missing
(* tiles that are not in use, or of no weight, or nowhere, change nothing *)
IdleNothing == Clearly => \A i \in 1 .. N : (~Counts(i) \/ tiles[i].at = 0) => Result([tiles EXCEPT ![i].v = I2R(9)], "all").c = All.c
(* a value is only seen in the cell of its tile *)
Local == Clearly => \A i \in 1 .. N : LET R == Result([tiles EXCEPT ![i].v = I2R(9)], "all") IN \A x \in 1 .. NX, k \in 0 .. 3 : x # tiles[i].at => R.c[k * NX + x] = All.c[k * NX + x]
(* a mean lies between the values it is of, and is there exactly if all of them are *)
MeanLies == Clearly => \A x \in 1 .. NX : LET S == Urban(x) m == All.c[3 * NX + x] vs == {tiles[i].v : i \in S} IN
  IF ~listed[x] \/ S = {} \/ Missing \in vs THEN m = Missing ELSE (\E v \in vs : RLe(v, m)) /\ (\E v \in vs : RLe(m, v))
(* which order the tiles are in says nothing *)
Order == \A s \in {[i \in 1 .. N |-> N + 1 - i]} : Result([i \in 1 .. N |-> tiles[s[i]]], "all").c = All.c
(* two tiles of one value and place are as one with their weights together *)
Joined == Clearly => \A i, j \in 1 .. N : (i # j /\ tiles[i].at = tiles[j].at /\ tiles[i].v = tiles[j].v /\ Counts(i) /\ Counts(j) /\ {tiles[i].kind, tiles[j].kind} \subseteq {7, 9}) =>
  Result([tiles EXCEPT ![i].w = tiles[i].w + tiles[j].w, ![j].used = FALSE], "urban").c = Result(tiles, "urban").c
OnePlace == \A k \in {1, 2} : (\E x \in 1 .. NX : listed[x] /\ Cardinality({i \in 1 .. N : tiles[i].at = x /\ Counts(i) /\ tiles[i].kind = k}) > 1) => All.err = "unmodelled"
=============================================================================
