----------------------------- MODULE Semaphore -----------------------------
(* API-level specification of a counting semaphore: Balau's Semaphore.      *)
EXTENDS Integers, Sequences, FiniteSets
VARIABLES cnt,  \* number of permits
          op    \* op[t]: "idle" or a pending operation
svars == <<cnt, op>>

SInit(c, T) == cnt = c /\ op = [t \in T |-> [st |-> "idle", k |-> ""]]
Call(t, k) == op[t].st = "idle" /\ op' = [op EXCEPT ![t] = [st |-> "open", k |-> k]] /\ UNCHANGED cnt
LinInc(t) == op[t].st = "open" /\ op[t].k = "inc" /\ cnt' = cnt + 1 /\ op' = [op EXCEPT ![t].st = "done"]
LinDec(t) == op[t].st = "open" /\ op[t].k = "dec" /\ cnt > 0 /\ cnt' = cnt - 1 /\ op' = [op EXCEPT ![t].st = "done"]
Ret(t) == op[t].st = "done" /\ op' = [op EXCEPT ![t].st = "idle"] /\ UNCHANGED cnt
\* An increment never blocks, a decrement blocks only while there is no permit.
Quiescent == \A t \in DOMAIN op : op[t].st = "idle" \/ (op[t].st = "open" /\ op[t].k = "dec" /\ cnt = 0)
NonNegative == cnt >= 0
=============================================================================
