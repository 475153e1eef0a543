-------------------------------- MODULE Cli --------------------------------
(* The command line: a sequence of arguments (sequences of characters), read from left to right into a request      *)
(*   [ok, chunks <<[d, n]>>, deflate (<<>> or <<n>>), debug, error, history, serial, std (<<>> or <<name>>),        *)
(*    mods <<name>>, inputs <<pattern>>]                                                                          *)
EXTENDS Integers, Sequences, FiniteSets, TLC
Long == << <<"c","h","u","n","k">>, <<"d","e","f","l","a","t","e">>, <<"d","e","b","u","g">>, <<"e","r","r","o","r">>, <<"s","t","d","f","i","l","e">>,
           <<"m","o","d","u","l","e">>, <<"n","o","_","h","i","s","t","o","r","y">>, <<"s","e","r","i","a","l">>, <<"h","e","l","p">> >>
Opt == <<"chunk", "deflate", "debug", "error", "stdfile", "module", "no_history", "serial", "help">>
ShortOf(c) == CASE c = "c" -> "chunk" [] c = "d" -> "deflate" [] c = "e" -> "error" [] c = "f" -> "stdfile" [] c = "m" -> "module" [] c = "n" -> "no_history"
                [] c = "s" -> "serial" [] c = "h" -> "help" [] OTHER -> ""
Takes == {"chunk", "deflate", "stdfile", "module"}
HasPrefix(s, p) == Len(p) <= Len(s) /\ SubSeq(s, 1, Len(p)) = p
RECURSIVE FindC(_, _, _)
FindC(s, c, i) == IF i > Len(s) THEN 0 ELSE IF s[i] = c THEN i ELSE FindC(s, c, i + 1)
(* the option a long name stands for: itself, or the only one it begins; "" if none or several *)
LongOf(p) == LET S == {i \in DOMAIN Long : Long[i] = p} P == {i \in DOMAIN Long : HasPrefix(Long[i], p)}
             IN IF S # {} THEN Opt[CHOOSE i \in S : TRUE] ELSE IF p # <<>> /\ Cardinality(P) = 1 THEN Opt[CHOOSE i \in P : TRUE] ELSE ""
(* ---- values *)
Digit == [c \in {"0","1","2","3","4","5","6","7","8","9"} |-> CASE c = "0" -> 0 [] c = "1" -> 1 [] c = "2" -> 2 [] c = "3" -> 3 [] c = "4" -> 4
                                                              [] c = "5" -> 5 [] c = "6" -> 6 [] c = "7" -> 7 [] c = "8" -> 8 [] OTHER -> 9]
RECURSIVE Nat10(_, _)
Nat10(s, v) == IF s = <<>> THEN v ELSE Nat10(Tail(s), (v * 10) + Digit[s[1]])
RECURSIVE NoBlank(_)
NoBlank(s) == IF s # <<>> /\ s[1] = " " THEN NoBlank(Tail(s)) ELSE IF s # <<>> /\ s[Len(s)] = " " THEN NoBlank(SubSeq(s, 1, Len(s) - 1)) ELSE s
(* whole numbers, with a sign and blanks around them: <<n>>, or <<>> *)
IntOf(t) == LET s == NoBlank(t)
                neg == s # <<>> /\ s[1] = "-"
                d == IF s # <<>> /\ s[1] \in {"-", "+"} THEN Tail(s) ELSE s
            IN IF d = <<>> \/ \E i \in DOMAIN d : d[i] \notin DOMAIN Digit \/ Len(d) > 8 THEN <<>> ELSE LET n == Nat10(d, 0) IN <<IF neg THEN -n ELSE n>>
RECURSIVE TextC(_)
TextC(s) == IF s = <<>> THEN "" ELSE s[1] \o TextC(Tail(s))
(* a chunk is name,size *)
ChunkOf(s) == LET i == FindC(s, ",", 1) n == IF i = 0 THEN <<>> ELSE IntOf(SubSeq(s, i + 1, Len(s)))
              IN IF i = 0 \/ n = <<>> THEN <<>> ELSE <<[d |-> TextC(SubSeq(s, 1, i - 1)), n |-> n[1]]>>
(* the last size given for a dimension counts *)
Put(chunks, c) == IF \E i \in DOMAIN chunks : chunks[i].d = c.d THEN [i \in DOMAIN chunks |-> IF chunks[i].d = c.d THEN c ELSE chunks[i]] ELSE Append(chunks, c)
(* ---- reading *)
Empty == [ok |-> TRUE, chunks |-> <<>>, deflate |-> <<>>, debug |-> FALSE, error |-> FALSE, history |-> TRUE, serial |-> FALSE, help |-> FALSE,
          std |-> <<>>, mods |-> <<>>, inputs |-> <<>>, open |-> FALSE]
Bad(q) == [q EXCEPT !.ok = FALSE]
Flag(q, o) == CASE o = "debug" -> [q EXCEPT !.debug = TRUE] [] o = "error" -> [q EXCEPT !.error = TRUE] [] o = "no_history" -> [q EXCEPT !.history = FALSE]
                [] o = "serial" -> [q EXCEPT !.serial = TRUE] [] o = "help" -> [q EXCEPT !.help = TRUE] [] OTHER -> Bad(q)
Value(q, o, s) ==
  CASE o = "chunk" -> LET c == ChunkOf(s) IN IF c = <<>> THEN Bad(q) ELSE [q EXCEPT !.chunks = Put(q.chunks, c[1])]
    [] o = "deflate" -> LET n == IntOf(s) IN IF n = <<>> THEN Bad(q) ELSE [q EXCEPT !.deflate = n]
    [] o = "stdfile" -> [q EXCEPT !.std = <<TextC(s)>>]
    [] o = "module" -> [q EXCEPT !.mods = Append(q.mods, TextC(s))]
    [] OTHER -> Bad(q)
IsOption(s) == Len(s) > 1 /\ s[1] = "-" /\ IntOf(s) = <<>>
(* options of one letter may be joined; the rest of the argument of one that takes a value is its value.             *)
(* q.want: the option that waits for a value, ""                                                                  *)
RECURSIVE Letters(_, _)
Letters(q, s) == IF s = <<>> THEN [q |-> q, want |-> ""]
                 ELSE LET o == ShortOf(s[1]) IN
                      IF o = "" THEN [q |-> Bad(q), want |-> ""]
                      ELSE IF o \notin Takes THEN Letters(Flag(q, o), Tail(s))
                      ELSE IF Tail(s) = <<>> THEN [q |-> q, want |-> o] ELSE [q |-> Value(q, o, Tail(s)), want |-> ""]
LongName(q, s) == LET e == FindC(s, "=", 1) o == LongOf(IF e = 0 THEN s ELSE SubSeq(s, 1, e - 1))
                  IN IF o = "" THEN [q |-> Bad(q), want |-> ""]
                     ELSE IF o \in Takes THEN (IF e = 0 THEN [q |-> q, want |-> o] ELSE [q |-> Value(q, o, SubSeq(s, e + 1, Len(s))), want |-> ""])
                     ELSE [q |-> IF e = 0 THEN Flag(q, o) ELSE Bad(q), want |-> ""]
(* one argument *)
Arg(st, s) ==
  IF st.want # "" THEN (IF IsOption(s) THEN [q |-> Bad(st.q), want |-> ""] ELSE [q |-> Value(st.q, st.want, s), want |-> ""])
  ELSE IF ~IsOption(s) THEN [q |-> [st.q EXCEPT !.inputs = Append(st.q.inputs, s)], want |-> ""]
  ELSE IF s[2] = "-" THEN LongName(st.q, SubSeq(s, 3, Len(s))) ELSE Letters(st.q, Tail(s))
RECURSIVE Read(_, _)
Read(st, argv) == IF argv = <<>> THEN (IF st.want # "" THEN Bad(st.q) ELSE st.q) ELSE Read(Arg(st, argv[1]), Tail(argv))
Reading(argv) == Read([q |-> Empty, want |-> ""], argv)
(* ---- patterns of file names: * any characters, ? one, no others are used *)
RECURSIVE Matches(_, _)
Matches(p, s) == IF p = <<>> THEN s = <<>>
                 ELSE IF p[1] = "*" THEN Matches(Tail(p), s) \/ (s # <<>> /\ s[1] # "/" /\ Matches(p, Tail(s)))
                 ELSE s # <<>> /\ (p[1] = s[1] \/ (p[1] = "?" /\ s[1] # "/")) /\ Matches(Tail(p), Tail(s))
=============================================================================
