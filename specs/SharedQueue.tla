--------------------------- MODULE SharedQueue -----------------------------
(***************************************************************************)
(* API-level specification of Balau's shared memory queue when every       *)
(* message fits into one buffer: a bounded priority queue (FIFO within a   *)
(* priority) that any number of processes use concurrently.                *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

VARIABLES cap, over, \* capacity; oversize messages are refused by enqueue
          q,         \* messages [v, p], next one to be dequeued first
          op         \* pending operation of each thread

qvars == <<cap, over, q, op>>
IdleOp == [st |-> "idle"]
Enqs == {"enq", "tenq"}
Deqs == {"deq", "tdeq"}

QInit(c, o, T) == cap = c /\ over = o /\ q = <<>> /\ op = [t \in T |-> IdleOp]

Call(t, k, v, p, c, w, now) ==
  /\ op[t].st = "idle"
  /\ op' = [op EXCEPT ![t] = [st |-> "open", k |-> k, v |-> v, p |-> p, c |-> c, w |-> w, c0 |-> now, r |-> 0]]
  /\ UNCHANGED <<cap, over, q>>

Refused(o) == o.k \in Enqs /\ o.c > 1 /\ (o.k = "tenq" \/ over)

\* Behind everything of the same or a higher priority.
Insert(s, m) == LET n == Cardinality({i \in 1 .. Len(s) : s[i].p >= m.p})
                IN SubSeq(s, 1, n) \o <<m>> \o SubSeq(s, n + 1, Len(s))

LinEnq(t) ==
  /\ op[t].st = "open" /\ op[t].k \in Enqs /\ op[t].c = 1
  /\ Len(q) < cap
  /\ q' = Insert(q, [v |-> op[t].v, p |-> op[t].p])
  /\ op' = [op EXCEPT ![t].st = "done"]
  /\ UNCHANGED <<cap, over>>

LinDeq(t) ==
  /\ op[t].st = "open" /\ op[t].k \in Deqs
  /\ q # <<>>
  /\ q' = Tail(q)
  /\ op' = [op EXCEPT ![t].st = "done", ![t].r = Head(q).v]
  /\ UNCHANGED <<cap, over>>

\* A try operation gives up only if the queue is full (empty) at an instant
\* not earlier than the end of its wait time.
Fail(t, now) ==
  /\ op[t].st = "open" /\ op[t].k \in {"tenq", "tdeq"} /\ op[t].c <= 1
  /\ now >= op[t].c0 + op[t].w
  /\ IF op[t].k = "tenq" THEN Len(q) = cap ELSE q = <<>>
  /\ op' = [op EXCEPT ![t].st = "failed"]
  /\ UNCHANGED <<cap, over, q>>

Ret(t, r, v) ==
  /\ \/ op[t].st = "done" /\ r = "ok" /\ v = op[t].r
     \/ op[t].st = "failed" /\ r = "fail" /\ v = 0
     \/ op[t].st = "open" /\ Refused(op[t]) /\ r = "size"
  /\ op' = [op EXCEPT ![t] = IdleOp]
  /\ UNCHANGED <<cap, over, q>>

MayBlock(t) ==
  \/ op[t].st = "idle"
  \/ /\ op[t].st = "open"
     /\ op[t].k \in Enqs => Len(q) = cap /\ op[t].c = 1
     /\ op[t].k \in Deqs => q = <<>>
Quiescent == \A t \in DOMAIN op : MayBlock(t)

NoOverstay(now) == \A t \in DOMAIN op :
  op[t].st = "open" /\ op[t].k \in {"tenq", "tdeq"} => op[t].c0 + op[t].w > now

Alone(t) == \A u \in DOMAIN op : u # t => op[u].st = "idle"
=============================================================================
