----------------------------- MODULE MC_MipSpec -----------------------------
(* (1) lines grow character by character; (2) a definition file grows line by line, and then the requested variables   *)
(* of two tables are added to their specifications one after the other, in any order.                                  *)
EXTENDS MipSpec
CONSTANTS Chars, MaxChars, Secs, DefNames, DefTexts, MaxLines, Users
VARIABLES mode, line, xs, st, todo, out
vars == <<mode, line, xs, st, todo, out>>
SayingsOf == {[kind |-> "header", n |-> s, d |-> "", glob |-> ""] : s \in Secs} \cup {[kind |-> "definition", n |-> n, d |-> d, glob |-> ""] : n \in DefNames, d \in DefTexts}
             \cup {[kind |-> "junk", n |-> "", d |-> "", glob |-> ""]}
(* two tables of the same variable names; the realm of the first has two words *)
VarOf(n, dims) == [n |-> n, dims |-> dims, at |-> <<>>, type |-> "real", requested |-> "", measures |-> "", cm |-> <<>>]
AxisIn(n, w) == [n |-> n, at |-> <<>>, type |-> "", req |-> [k |-> "none", w |-> <<>>], reqtext |-> ""]
TableOf(id, realm, vs) == [id |-> id, realm |-> realm, freq |-> "mon", headp |-> <<>>, generic |-> <<"g">>, times |-> <<>>, landuse |-> <<>>, similar |-> <<>>, axes |-> <<AxisIn("x", "")>>, vars |-> vs]
T1 == TableOf("S", <<"r", "q">>, <<VarOf("a", <<"x", "g">>), VarOf("b", <<"x">>)>>)
T2 == TableOf("T", <<"q">>, <<VarOf("a", <<>>), VarOf("c", <<"x">>)>>)
Tables == <<T1, T2>>
G == ("activity_id" :> "A") @@ ("netcdf_type" :> "NETCDF4") @@ ("variable_id" :> Blanked) @@ ("table_id" :> Blanked)
P == [outdir |-> "o", exp |-> "e", version |-> "v", indices |-> <<>>, noparent |-> FALSE, child |-> "", parent |-> "", parent_activity |-> FALSE, grids |-> <<>>]
UserList(u) == CASE u = "all" -> <<>> [] u = "a" -> <<"a">> [] OTHER -> <<"c", "a", "z">>
Tasks(u) == UNION {{<<i, j>> : j \in {k \in DOMAIN Tables[i].vars : Tables[i].vars[k] \in Range(RequestedOf(Tables[i], UserList(u)))}} : i \in DOMAIN Tables}
Init == mode \in {"line", "file"} /\ line = <<>> /\ xs = <<>> /\ st = ReadStart /\ todo = {} /\ out = Start0
Type == mode = "line" /\ Len(line) < MaxChars /\ \E c \in Chars : line' = line \o (IF c = "TABLE" THEN TableWord ELSE <<c>>) /\ UNCHANGED <<mode, xs, st, todo, out>>
(* definitions stand in sections *)
Read == /\ mode = "file" /\ Len(xs) < MaxLines
        /\ \E x \in SayingsOf : (x.kind = "definition" => st.sec # "") /\ xs' = Append(xs, x) /\ st' = ReadStep(st, x)
        /\ UNCHANGED <<mode, line, todo, out>>
Begin == mode = "file" /\ \E u \in Users : mode' = u /\ todo' = Tasks(u) /\ UNCHANGED <<line, xs, st, out>>
AddOne == mode \in Users /\ \E x \in todo : todo' = todo \ {x} /\ out' = Add(out, st.defs, G, Tables[x[1]], Tables[x[1]].vars[x[2]], P) /\ UNCHANGED <<mode, line, xs, st>>
Next == Type \/ Read \/ Begin \/ AddOne
Spec == Init /\ [][Next]_vars
(* ---- lines ---- *)
Blanks == mode = "line" => Saying(<<" ">> \o line \o <<" ">>) = Saying(line)
(* a comment after a definition changes nothing but the input files; it begins no section *)
Comment == mode = "line" /\ Hashes(line) = {} => \A t \in {<<"#", "x">>, <<"#">> \o TableWord \o <<":", "x">>, <<"#", "=">>} :
             LET x == Saying(line) y == Saying(line \o t) IN (x.kind = "definition" => y.kind = "definition" /\ y.n = x.n /\ y.d = x.d)
                                                            /\ (Strip(line) # <<>> => y.kind # "header") /\ (y.kind = "definition" => x.kind = "definition")
OneKind == mode = "line" => LET x == Saying(line) IN /\ (x.kind = "header" => Strip(line)[1] = "#") /\ (Strip(line) # <<>> /\ Strip(line)[1] = "#" => x.kind \in {"header", "nothing"})
                                                     /\ (x.kind = "definition" => \E i \in DOMAIN line : line[i] = "=" /\ \A j \in Hashes(line) : i < j)
(* ---- files: reading in turn is looking up ---- *)
LookedUp == mode = "file" => /\ DOMAIN st.defs = {xs[i].n : i \in {j \in DOMAIN xs : xs[j].kind = "header"}}
                             /\ \A s \in DOMAIN st.defs : \A n \in DefNames : LET is == DefiningLines(xs, s, n) IN
                                   /\ (n \in DOMAIN st.defs[s] <=> is # {})
                                   /\ (is # {} => st.defs[s][n].d = xs[CHOOSE i \in is : \A j \in is : j <= i].d)
(* ---- generation ---- *)
Entries(o) == {<<f, n>> : f \in DOMAIN o.specs, n \in DefNames \cup {"x", "g"}} \cap UNION {{<<f, n>> : n \in DOMAIN o.specs[f]} : f \in DOMAIN o.specs}
FileOf(i) == SpecName(G, Tables[i], Tables[i].vars[1], P)
(* what has been added is there, from its own table's section, or reported; nothing else is *)
Exactly == mode \in Users => LET done == Tasks(mode) \ todo
                                 defd == {x \in done : Defined(st.defs, Tables[x[1]], Tables[x[1]].vars[x[2]])}
                                 V(x) == Tables[x[1]].vars[x[2]]
  IN /\ {e \in Entries(out) : out.specs[e[1]][e[2]].kind = "variable"} = {<<FileOf(x[1]), V(x).n>> : x \in defd}
     /\ \A x \in defd : LET e == out.specs[FileOf(x[1])][V(x).n] IN e.def.w = <<st.defs[Tables[x[1]].id][V(x).n].d>> /\ e.file.at["table_id"] = Tables[x[1]].id /\ e.file.at["variable_id"] = V(x).n
     /\ \A n \in DefNames : (IF n \in DOMAIN out.missing THEN out.missing[n] ELSE 0) = Cardinality({x \in done \ defd : V(x).n = n})
     /\ \A x \in defd : \A d \in Range(V(x).dims) : d \in DOMAIN out.specs[FileOf(x[1])]
     /\ \A e \in Entries(out) : out.specs[e[1]][e[2]].kind = "axis" => \E x \in defd : FileOf(x[1]) = e[1] /\ e[2] \in Range(V(x).dims)
AnyOrder == mode \in Users /\ todo = {} => out = Generate(Start0, st.defs, G, Tables, UserList(mode), P)
(* an axis has the coordinates of its own realm, or of no realm *)
OwnRealm == mode \in Users => \A e \in Entries(out) : LET y == out.specs[e[1]][e[2]] IN
  y.kind = "axis" /\ y.def.k = "text" => \E i \in DOMAIN Tables : FileOf(i) = e[1] /\ \E k \in DOMAIN Tables[i].realm : LET s == "Coords_" \o Tables[i].realm[k] IN s \in DOMAIN st.defs /\ e[2] \in DOMAIN st.defs[s] /\ st.defs[s][e[2]].d = y.def.w[1]
=============================================================================
