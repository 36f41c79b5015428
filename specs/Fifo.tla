-------------------------------- MODULE Fifo --------------------------------
EXTENDS Integers, Sequences, FiniteSets
VARIABLES q, op
fvars == <<q, op>>
FInit(T) == q = <<>> /\ op = [t \in T |-> [st |-> "idle"]]
Call(t, k, v) == op[t].st = "idle" /\ op' = [op EXCEPT ![t] = [st |-> "open", k |-> k, v |-> v]] /\ UNCHANGED q
\* r: "ok" | "empty" (exception) | "true" | "false"
Lin(t) ==
  /\ op[t].st = "open"
  /\ CASE op[t].k = "enq"   -> q' = Append(q, op[t].v) /\ op' = [op EXCEPT ![t] = [st |-> "done", r |-> "ok", v |-> 0]]
       [] op[t].k = "deq"   -> IF q = <<>> THEN q' = q /\ op' = [op EXCEPT ![t] = [st |-> "done", r |-> "empty", v |-> 0]]
                               ELSE q' = Tail(q) /\ op' = [op EXCEPT ![t] = [st |-> "done", r |-> "ok", v |-> Head(q)]]
       [] op[t].k = "empty" -> q' = q /\ op' = [op EXCEPT ![t] = [st |-> "done", r |-> IF q = <<>> THEN "true" ELSE "false", v |-> 0]]
Ret(t, r, v) == op[t].st = "done" /\ op[t].r = r /\ op[t].v = v /\ op' = [op EXCEPT ![t] = [st |-> "idle"]] /\ UNCHANGED q
=============================================================================
