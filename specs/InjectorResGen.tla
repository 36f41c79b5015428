--------------------------- MODULE InjectorResGen ---------------------------
(* Every presence of bindings over a hierarchy of two injectors, and every    *)
(* request of each: which binding provides it.                                *)
EXTENDS Injector, TLC
CONSTANTS Ks, Ns
VARIABLES h
Form(k) == CASE k = "S" -> "given" [] k = "CS" -> "given" [] k \in {"R", "CR"} -> "ref" [] k = "U" -> "fn" [] OTHER -> "proto"
Keys == Ks \X Ns
RECURSIVE Text(_, _), SetSeq(_)
SetSeq(S) == IF S = {} THEN <<>> ELSE LET x == CHOOSE y \in S : TRUE IN <<x>> \o SetSeq(S \ {x})
Text(s, t) == IF s = <<>> THEN "" ELSE Head(s)[1] \o ":" \o Head(s)[2] \o ":" \o Form(Head(s)[1]) \o ":" \o ToString(t) \o ":" \o (IF Tail(s) = <<>> THEN "" ELSE ";" \o Text(Tail(s), t + 1))
Bs(s, o) == [x \in 1 .. Len(s) |-> [k |-> s[x][1], n |-> s[x][2], f |-> Form(s[x][1]), t |-> o + x, deps |-> <<>>, o |-> o + x]]
Op(i, p, s) == "create " \o ToString(i) \o " " \o ToString(p) \o " one " \o (IF s = <<>> THEN "-" ELSE Text(s, 6 * i)) \o " 0 0 -"
Init == IInit /\ h = "" 
Build == /\ h = ""
         /\ \E A \in SUBSET Keys, B \in SUBSET Keys :
              LET a == SetSeq(A)  b == SetSeq(B) IN
              /\ h' = Op(1, 0, a) \o "|" \o Op(2, 1, b)
              /\ conf' = (1 :> Bs(a, 100) @@ 2 :> Bs(b, 200))
              /\ inj' = (1 :> [p |-> 0, c |-> 1, v |-> FALSE, pres |-> <<>>] @@ 2 :> [p |-> 1, c |-> 2, v |-> FALSE, pres |-> <<>>])
         /\ UNCHANGED <<store, objs, dead, handles, orph, stat>>
Emit == PrintT(<<"SCRIPT", h'>>)
Spec == Init /\ [][Build]_<<ivars, h>>
Got(j, k, n) == Resolve(inj, conf, j, k, n)
\* What provides the mutable kind also satisfies the weaker ones, the child hides
\* the parent for the same kind, and what the parent provides the child does too.
Widening == h # "" => \A n \in Ns, j \in {1, 2} :
   /\ Got(j, "S", n) # None => Got(j, "CS", n) # None /\ Got(j, "W", n) = Got(j, "S", n)
   /\ Got(j, "CW", n) = Got(j, "CS", n) /\ Got(j, "CU", n) = Got(j, "U", n)
   /\ Got(j, "R", n) # None => Got(j, "CR", n) # None
Hiding == h # "" => \A n \in Ns, k \in {"S", "CS", "W", "CW", "R", "CR", "U", "CU"} :
   /\ (Got(1, k, n) # None => Got(2, k, n) # None)
   /\ (Local(conf[2], k, n) # 0 => Got(2, k, n)[1] = 2)
   /\ (\A x \in 1 .. Len(conf[2]) : conf[2][x].n # n) => Got(2, k, n) = Got(1, k, n)
=============================================================================
