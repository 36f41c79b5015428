--------------------------- MODULE ChunkedQueue ----------------------------
(***************************************************************************)
(* API-level specification of Balau's shared memory queue when messages    *)
(* may need several buffers: any number of processes enqueue, the dequeues *)
(* of one process (synchronised with each other) take messages out.  A     *)
(* message enters the queue piece by piece: Begin fixes its place, End     *)
(* makes it available.  Messages of one priority leave in the order in     *)
(* which they began.                                                       *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

VARIABLES cap, over, strict,
          q,    \* messages [v, p, c, done, o], in the order of their first piece
          op
qvars == <<cap, over, strict, q, op>>
IdleOp == [st |-> "idle"]
Enqs == {"enq", "tenq"}
Deqs == {"deq", "tdeq"}
QInit(c, o, s, T) == cap = c /\ over = o /\ strict = s /\ q = <<>> /\ op = [t \in T |-> IdleOp]

Call(t, k, v, p, c, w, now) ==
  /\ op[t].st = "idle"
  /\ op' = [op EXCEPT ![t] = [st |-> "open", k |-> k, v |-> v, p |-> p, c |-> c, w |-> w, c0 |-> now, r |-> 0]]
  /\ UNCHANGED <<cap, over, strict, q>>

Refused(o) == o.k \in Enqs /\ o.c > 1 /\ (o.k = "tenq" \/ over)

Begin(t) ==
  /\ op[t].st = "open" /\ op[t].k \in Enqs /\ ~Refused(op[t])
  /\ q' = Append(q, [v |-> op[t].v, p |-> op[t].p, c |-> op[t].c, done |-> op[t].c = 1, t |-> t])
  /\ op' = [op EXCEPT ![t].st = IF op[t].c = 1 THEN "done" ELSE "part"]
  /\ UNCHANGED <<cap, over, strict>>

End(t) ==
  /\ op[t].st = "part"
  /\ q' = [i \in DOMAIN q |-> IF q[i].t = t THEN [q[i] EXCEPT !.done = TRUE] ELSE q[i]]
  /\ op' = [op EXCEPT ![t].st = "done"]
  /\ UNCHANGED <<cap, over, strict>>

Remove(s, i) == SubSeq(s, 1, i - 1) \o SubSeq(s, i + 1, Len(s))

LinDeq(t) ==
  /\ op[t].st = "open" /\ op[t].k \in Deqs
  /\ \E i \in DOMAIN q :
       /\ q[i].done
       /\ \A j \in 1 .. i - 1 : q[j].p # q[i].p
       /\ strict => \A j \in DOMAIN q : q[j].p <= q[i].p
       /\ q' = Remove(q, i)
       /\ op' = [op EXCEPT ![t].st = "done", ![t].r = q[i].v]
  /\ UNCHANGED <<cap, over, strict>>

Incomplete == \E i \in DOMAIN q : ~q[i].done
\* Giving up: nothing is there, or a message whose remaining pieces have not arrived.
MayGiveUp == q = <<>> \/ Incomplete
RECURSIVE Pieces(_)
Pieces(s) == IF s = <<>> THEN 0 ELSE Head(s).c + Pieces(Tail(s))
Fail(t, now) ==
  /\ op[t].st = "open" /\ op[t].k \in {"tenq", "tdeq"} /\ op[t].c <= 1
  /\ now >= op[t].c0 + op[t].w
  /\ IF op[t].k = "tenq" THEN Pieces(q) >= cap ELSE MayGiveUp
  /\ op' = [op EXCEPT ![t].st = "failed"]
  /\ UNCHANGED <<cap, over, strict, q>>

Ret(t, r, v) ==
  /\ \/ op[t].st = "done" /\ r = "ok" /\ v = op[t].r
     \/ op[t].st = "failed" /\ r = "fail" /\ v = 0
     \/ op[t].st = "open" /\ Refused(op[t]) /\ r = "size"
  /\ op' = [op EXCEPT ![t] = IdleOp]
  /\ UNCHANGED <<cap, over, strict, q>>

\* Where nothing can move: a stuck consumer has no complete message (or an
\* incomplete one in its way), a stuck producer no space; not both.
StuckEnq == {t \in DOMAIN op : op[t].st \in {"open", "part"} /\ op[t].k \in Enqs}
StuckDeq == {t \in DOMAIN op : op[t].st = "open" /\ op[t].k \in Deqs}
Quiescent ==
  /\ \A t \in DOMAIN op : op[t].st \in {"idle", "open", "part"}
  /\ StuckEnq = {} \/ StuckDeq = {}
  /\ StuckDeq # {} => MayGiveUp
  /\ \A t \in StuckEnq : ~Refused(op[t]) /\ Pieces(q) + (IF op[t].st = "open" THEN 1 ELSE 0) > cap

Alone(t) == \A u \in DOMAIN op : u # t => op[u].st = "idle"
=============================================================================
