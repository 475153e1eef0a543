------------------------------- MODULE MC_Cli -------------------------------
(* Arguments are given one after the other; the request is read as they come, and is the one its parts describe.       *)
EXTENDS Cli
CONSTANTS Args, MaxLen
VARIABLES argv, st
C(s) == CASE s = "-c" -> <<"-","c">> [] s = "x,1" -> <<"x",",","1">> [] s = "-cx,2" -> <<"-","c","x",",","2">> [] s = "--ch=y,3" -> <<"-","-","c","h","=","y",",","3">>
          [] s = "-d" -> <<"-","d">> [] s = "4" -> <<"4">> [] s = "--def=9" -> <<"-","-","d","e","f","=","9">> [] s = "--de" -> <<"-","-","d","e">>
          [] s = "-ns" -> <<"-","n","s">> [] s = "-e" -> <<"-","e">> [] s = "-1" -> <<"-","1">> [] s = "a" -> <<"a">> [] s = "-nd7" -> <<"-","n","d","7">>
          [] s = "--serial=1" -> <<"-","-","s","e","r","i","a","l","=","1">> [] s = "-x" -> <<"-","x">> [] OTHER -> <<"b">>
Init == argv = <<>> /\ st = [q |-> Empty, want |-> ""]
Next == Len(argv) < MaxLen /\ \E a \in Args : argv' = Append(argv, C(a)) /\ st' = Arg(st, C(a))
Spec == Init /\ [][Next]_<<argv, st>>
Q == IF st.want # "" THEN Bad(st.q) ELSE st.q
(* reading as they come is reading them all *)
Same == Q = Reading(argv)
(* what cannot be read stays so, whatever follows *)
StaysBad == [][~st.q.ok => ~st'.q.ok]_<<argv, st>>
(* only an argument that is an option, or the value of one, changes what is not input *)
InputsOnly == [][Len(st'.q.inputs) > Len(st.q.inputs) => [st'.q EXCEPT !.inputs = <<>>] = [st.q EXCEPT !.inputs = <<>>]]_<<argv, st>>
(* flags never go back *)
Flags == [][(st.q.serial => st'.q.serial) /\ (st.q.error => st'.q.error) /\ (~st.q.history => ~st'.q.history)]_<<argv, st>>
(* one size for a dimension, the one given last *)
OneSize == \A i, j \in DOMAIN st.q.chunks : st.q.chunks[i].d = st.q.chunks[j].d => i = j
LastSize == [][st'.q.ok /\ st'.q.chunks # st.q.chunks => Cardinality({i \in DOMAIN st'.q.chunks : i \notin DOMAIN st.q.chunks \/ st.q.chunks[i] # st'.q.chunks[i]}) = 1]_<<argv, st>>
(* giving the whole line twice is giving it once, but for inputs and modules *)
Twice == (\A i \in DOMAIN argv : argv[i] # <<"a">> ) => LET a == Reading(argv) b == Reading(argv \o argv)
         IN a.ok = b.ok /\ (a.ok => a.deflate = b.deflate /\ a.serial = b.serial /\ {a.chunks[i] : i \in DOMAIN a.chunks} = {b.chunks[i] : i \in DOMAIN b.chunks})
(* the last value of an option counts *)
LastDeflate == [][st.want = "deflate" /\ st'.q.ok => st'.q.deflate # <<>>]_<<argv, st>>
=============================================================================
