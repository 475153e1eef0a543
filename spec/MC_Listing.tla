----------------------------- MODULE MC_Listing -----------------------------
(* For every sequence of tokens that is a definition, the names the tree of the definition has (constants folded)    *)
(* are those its tokens have: nothing is lost by folding, nesting, indexing or keywords, and nothing is added.       *)
EXTENDS Listing
CONSTANTS Alphabet, MaxLen
VARIABLE ts
T(k) == CASE k \in {"x", "y", "f"} -> Tok("name", k, Zero) [] k = "1" -> Tok("uint", "", One) [] k = "s" -> Tok("string", "y", Zero) [] OTHER -> Tok(k, "", Zero)
Init == ts = <<>>
Next == Len(ts) < MaxLen /\ \E k \in Alphabet : ts' = Append(ts, T(k))
Spec == Init /\ [][Next]_ts
NothingLost == LET e == ParseTokens(ts) IN e.t # "refused" => Names(e) = TokenNames(ts)
(* a definition inside a definition: brackets, calls and keywords keep its names *)
InCall == LET e == ParseTokens(ts) IN e.t # "refused" /\ Len(ts) <= MaxLen =>
             Names(ParseTokens(<<T("f"), T("("), T("x"), T("="), T("(")>> \o ts \o <<T(")"), T(")")>>)) = Names(e)
==============================================================================
