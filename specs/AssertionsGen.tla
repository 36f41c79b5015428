---------------------------- MODULE AssertionsGen ----------------------------
(* Every pair of short values of each kind with each matcher, every near by    *)
(* comparison of small numbers, every class with every class, and every throw. *)
EXTENDS Assertions, TLC, FiniteSets
CONSTANTS MostText, MostRow
VARIABLES kind, m, a, e, x, line
Basic == {"is", "isNot", "isGreaterThan", "isGreaterThanOrEqualTo", "isLessThan", "isLessThanOrEqualTo"}
Texty == {"startsWith", "endsWith", "contains", "doesNotContain"}
Seqs(S, n) == UNION {[1 .. k -> S] : k \in 0 .. n}
Points == {97, 98, 32, 10}
RECURSIVE Dots(_)
Dots(s) == IF s = <<>> THEN "" ELSE ToString(Head(s)) \o (IF Len(s) > 1 THEN "." ELSE "") \o Dots(Tail(s))
W(s) == IF s = <<>> THEN "-" ELSE Dots(s)
RECURSIVE Bars(_)
Bars(r) == IF r = <<>> THEN "" ELSE W(Head(r)) \o (IF Len(r) > 1 THEN "/" ELSE "") \o Bars(Tail(r))
R(r) == IF r = <<>> THEN "=" ELSE Bars(r)
Init == kind = "" /\ m = "" /\ a = <<>> /\ e = <<>> /\ x = <<>> /\ line = ""
Cmp == \/ kind' = "int" /\ m' \in Basic /\ a' \in -2 .. 11 /\ e' \in {-1, 0, 1, 10} /\ line' = "cmp int " \o m' \o " " \o ToString(a') \o " " \o ToString(e')
       \/ kind' = "text" /\ m' \in Basic \cup Texty /\ a' \in Seqs(Points, MostText) /\ e' \in Seqs(Points, 2) /\ line' = "cmp text " \o m' \o " " \o W(a') \o " " \o W(e')
       \/ kind' = "row" /\ m' \in Basic \cup {"startsWith"} /\ a' \in Seqs({1, 2}, MostRow) /\ e' \in Seqs({1, 2}, 2) /\ line' = "cmp row " \o m' \o " " \o W(a') \o " " \o W(e')
       \/ kind' = "rows" /\ m' \in {"is", "isLessThan", "startsWith"} /\ a' \in Seqs({<<>>, <<97>>, <<97, 10>>, <<13, 32>>}, 2) /\ e' \in Seqs({<<97>>, <<98>>, <<97, 9>>}, 2)
          /\ line' = "cmp rows " \o m' \o " " \o R(a') \o " " \o R(e')
Near_ == kind' = "near" /\ m' = "" /\ a' \in -3 .. 3 /\ e' \in -2 .. 2 /\ x' \in 0 .. 2 /\ line' = "near " \o ToString(a') \o " " \o ToString(e') \o " " \o ToString(x')
IsA == kind' = "isa" /\ m' = "" /\ a' \in {"A", "B", "C", "D", "M"} /\ e' \in {"A", "B", "C", "D", "M", "X"} /\ x' = 0 /\ line' = "isa " \o a' \o " " \o e'
Throws == kind' = "throws" /\ m' \in {"type", "inst", "cmp", "pred"} /\ a' \in {"none", "Sub", "Err", "Other", "int"} /\ e' \in {"Sub", "Err"} /\ x' \in 1 .. 2
          /\ line' = "throws " \o m' \o " " \o a' \o " 1 " \o e' \o " " \o ToString(x')
Step == kind = "" /\ ((Cmp /\ UNCHANGED x) \/ Near_ \/ IsA \/ Throws)
Emit == PrintT(<<"SCRIPT", line'>>)
Spec == Init /\ [][Step]_<<kind, m, a, e, x, line>>
\* The orders are total, and a text that starts or ends with another contains it.
Laws ==
   /\ kind \in {"int", "text", "row", "rows"} => Cardinality({r \in {"is", "isGreaterThan", "isLessThan"} : Matches(r, kind, a, e)}) = 1
   /\ kind \in {"int", "text", "row", "rows"} => (Matches("isLessThanOrEqualTo", kind, a, e) <=> Matches("isLessThan", kind, a, e) \/ Matches("is", kind, a, e))
   /\ kind = "text" => (Starts(a, e) \/ Ends(a, e) => Contains(a, e)) /\ (Contains(a, e) /\ Contains(e, a) => a = e)
   /\ kind = "near" => Near(a, e, x) = Near(e, a, x) /\ (Near(a, e, 0) <=> a = e)
=============================================================================
