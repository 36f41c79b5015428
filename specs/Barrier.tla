------------------------------ MODULE Barrier ------------------------------
(***************************************************************************)
(* API-level specification of a reusable barrier (Balau's CyclicBarrier):  *)
(* parties threads rendezvous, round after round; the number of parties    *)
(* may be reconfigured while nobody uses the barrier.                      *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets
VARIABLES parties, \* current number of parties
          arrived, \* arrived[t]: number of countdown calls made by t since the last reconfiguration
          left,    \* left[t]: number of them that have returned
          total    \* countdown calls made since the last reconfiguration
bvars == <<parties, arrived, left, total>>
Sum(f) == LET S[D \in SUBSET DOMAIN f] == IF D = {} THEN 0 ELSE LET x == CHOOSE x \in D : TRUE IN f[x] + S[D \ {x}] IN S[DOMAIN f]
BInit(n, T) == parties = n /\ arrived = [t \in T |-> 0] /\ left = [t \in T |-> 0] /\ total = 0
InUse == \E t \in DOMAIN arrived : arrived[t] # left[t]
Arrive(t) == /\ arrived[t] = left[t]
             /\ arrived' = [arrived EXCEPT ![t] = @ + 1] /\ total' = total + 1
             /\ UNCHANGED <<parties, left>>
\* The r-th passage of a thread needs r * parties arrivals.
CanLeave(t) == arrived[t] = left[t] + 1 /\ total >= parties * arrived[t]
Leave(t) == CanLeave(t) /\ left' = [left EXCEPT ![t] = @ + 1] /\ UNCHANGED <<parties, arrived, total>>
Reconfigure(n) == /\ ~InUse /\ parties' = n /\ total' = 0
                  /\ arrived' = [t \in DOMAIN arrived |-> 0] /\ left' = [t \in DOMAIN left |-> 0]
Quiescent == \A t \in DOMAIN arrived : arrived[t] # left[t] => ~CanLeave(t)
=============================================================================
