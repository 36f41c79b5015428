--------------------------- MODULE BlockingQueue ---------------------------
(***************************************************************************)
(* API-level specification of a bounded blocking FIFO queue (Balau's       *)
(* ArrayBlockingQueue): what callers in any number of threads may observe. *)
(* Each operation is Call - (internal) linearization - Ret.                 *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

VARIABLES cap,  \* capacity
          q,    \* abstract contents, oldest first
          op    \* op[t]: the pending operation of thread t

qvars == <<cap, q, op>>

IdleOp == [st |-> "idle"]

Enqs == {"enq", "tenq"}
Deqs == {"deq", "tdeq"}

QInit(c, T) == cap = c /\ q = <<>> /\ op = [t \in T |-> IdleOp]

\* st: open -> (done | failed) -> idle.  cb: callbacks are observed, ex: given with the call (else the defaults).
\* saw: the queue was seen full after the call; f, s: callbacks made.
\* spc: the queue was seen not full after the full callback.
Call(t, k, v, w, cb, ex, now) ==
  /\ op[t].st = "idle"
  /\ op' = [op EXCEPT ![t] = [st |-> "open", k |-> k, v |-> v, w |-> w, cb |-> cb, ex |-> ex,
                              c0 |-> now, saw |-> FALSE, f |-> FALSE, spc |-> FALSE, s |-> FALSE, r |-> 0]]
  /\ UNCHANGED <<cap, q>>

SeeFull(t) ==
  /\ op[t].st = "open" /\ op[t].k \in Enqs /\ op[t].cb /\ ~op[t].saw
  /\ Len(q) = cap
  /\ op' = [op EXCEPT ![t].saw = TRUE]
  /\ UNCHANGED <<cap, q>>

SeeSpace(t) ==
  /\ op[t].st = "open" /\ op[t].k \in Enqs /\ op[t].f /\ ~op[t].spc
  /\ Len(q) < cap
  /\ op' = [op EXCEPT ![t].spc = TRUE]
  /\ UNCHANGED <<cap, q>>

CbFull(t, v, x) ==
  /\ op[t].st # "idle" /\ op[t].ex = x
  /\ op[t].st = "open" /\ op[t].saw /\ ~op[t].f /\ op[t].v = v
  /\ op' = [op EXCEPT ![t].f = TRUE]
  /\ UNCHANGED <<cap, q>>

CbSpace(t, v, x) ==
  /\ op[t].st # "idle" /\ op[t].ex = x
  /\ op[t].st \in {"open", "done"} /\ op[t].f /\ op[t].spc /\ ~op[t].s /\ op[t].v = v
  /\ op' = [op EXCEPT ![t].s = TRUE]
  /\ UNCHANGED <<cap, q>>

LinEnq(t) ==
  /\ op[t].st = "open" /\ op[t].k \in Enqs
  /\ Len(q) < cap
  /\ q' = Append(q, op[t].v)
  /\ op' = [op EXCEPT ![t].st = "done", ![t].spc = @ \/ op[t].f]
  /\ UNCHANGED cap

LinDeq(t) ==
  /\ op[t].st = "open" /\ op[t].k \in Deqs
  /\ q # <<>>
  /\ q' = Tail(q)
  /\ op' = [op EXCEPT ![t].st = "done", ![t].r = Head(q)]
  /\ UNCHANGED cap

\* A try operation gives up only if the queue is full (empty) at an instant
\* not earlier than the end of its wait time.
Fail(t, now) ==
  /\ op[t].st = "open" /\ op[t].k \in {"tenq", "tdeq"}
  /\ now >= op[t].c0 + op[t].w
  /\ IF op[t].k = "tenq" THEN Len(q) = cap ELSE q = <<>>
  /\ op[t].k = "tenq" /\ op[t].cb => op[t].f
  /\ ~op[t].s
  /\ op' = [op EXCEPT ![t].st = "failed"]
  /\ UNCHANGED <<cap, q>>

Ret(t, ok, v) ==
  /\ \/ op[t].st = "done" /\ ok /\ v = op[t].r
     \/ op[t].st = "failed" /\ ~ok /\ v = 0
  /\ op[t].k \in Enqs /\ op[t].cb /\ ok => (op[t].f <=> op[t].s)
  /\ op' = [op EXCEPT ![t] = IdleOp]
  /\ UNCHANGED <<cap, q>>

\* Where every thread is stuck, each pending operation must have a reason.
MayBlock(t) ==
  \/ op[t].st = "idle"
  \/ /\ op[t].st = "open"
     /\ op[t].k \in Enqs => Len(q) = cap /\ (op[t].cb => op[t].f)
     /\ op[t].k \in Deqs => q = <<>>

Quiescent == \A t \in DOMAIN op : MayBlock(t)

\* No timed operation is still waiting after its deadline.
NoOverstay(now) == \A t \in DOMAIN op :
  op[t].st = "open" /\ op[t].k \in {"tenq", "tdeq"} => op[t].c0 + op[t].w > now

Alone(t) == \A u \in DOMAIN op : u # t => op[u].st = "idle"
=============================================================================
