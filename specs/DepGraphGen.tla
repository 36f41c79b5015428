---------------------------- MODULE DepGraphGen ----------------------------
(* Every transition of the model over a few keys, as scripts.              *)
EXTENDS DepGraph, TLC
CONSTANT Keys
VARIABLE h
D == [k \in Keys |-> CASE k = "a" -> 1 [] k = "b" -> 2 [] OTHER -> 3]
Init == GInit /\ h = ""
Str(n) == ToString(n)
Next == \/ \E a \in Keys : Apply(Add(a, D[a], TRUE)) /\ h' = h \o "|add " \o a \o " " \o Str(D[a]) \o " 1"
        \/ \E a \in Keys : Apply(Remove(a, TRUE)) /\ h' = h \o "|remove " \o a \o " 1"
        \/ \E a, b \in Keys : Apply(Relate(a, b, D[a] * 4 + D[b])) /\ h' = h \o "|relate " \o a \o " " \o b \o " " \o Str(D[a] * 4 + D[b])
        \/ \E a, b \in Keys : Apply(Unrelate(a, b)) /\ h' = h \o "|unrelate " \o a \o " " \o b
Emit == PrintT(<<"SCRIPT", h'>>)
View == gvars
\* The design level facts the queries rely on.
TypeOK == \A x \in E : x[1] \in K /\ x[2] \in K
RemoveForgets == [][\A a \in Keys : (a \in K /\ a \notin DOMAIN nodes') => \A x \in DOMAIN edges' : a \notin {x[1], x[2]}]_gvars
Spec == Init /\ [][Next]_<<gvars, h>>
=============================================================================
