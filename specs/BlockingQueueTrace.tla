------------------------ MODULE BlockingQueueTrace -------------------------
(* Validates recorded executions of the real queue (many per run).         *)
(* VT_MODE = "contents": which elements are handed over, in which order;   *)
(* VT_MODE = "waiting": also when operations may wait, give up, call back. *)
EXTENDS BlockingQueue, Json, TLC, IOUtils

Traces == ndJsonDeserialize(IOEnv.VT_TRACES)

VARIABLES ti, l
vars == <<cap, q, op, ti, l>>

Waiting == IOEnv.VT_MODE = "waiting"
Tr == Traces[ti]
Ev == Tr.ev
Threads(tr) == 0 .. tr.sc.n - 1

Init == /\ ti \in 1 .. Len(Traces)
        /\ l = 1
        /\ QInit(Traces[ti].sc.cap, Threads(Traces[ti]))

Is(k) == l <= Len(Ev) /\ Ev[l].k = k /\ l' = l + 1 /\ UNCHANGED ti
E == Ev[l]
Stay == UNCHANGED <<ti, l>>

TCall == Is("call") /\ Call(E.t, E.op, E.v, E.w, Waiting /\ E.cb = 1, E.ex, E.now)
TCbf  == Is("cbf") /\ IF Waiting THEN CbFull(E.t, E.v, E.x) ELSE UNCHANGED qvars
TCbs  == Is("cbs") /\ IF Waiting THEN CbSpace(E.t, E.v, E.x) ELSE UNCHANGED qvars
TRet  == Is("ret") /\ Ret(E.t, E.ok = 1, E.v)
TIdle == Is("idle") /\ (Waiting => Quiescent /\ (Tr.sc.strict = 1 => NoOverstay(E.now))) /\ UNCHANGED qvars
TAlone == Is("alone") /\ UNCHANGED qvars
TObs  == /\ Is("obs") /\ UNCHANGED qvars
         /\ Alone(E.t) => (E.r = 1) = (IF E.op = "empty" THEN q = <<>> ELSE Len(q) = cap)
TInt  == /\ l <= Len(Ev) /\ Stay
         /\ \E t \in DOMAIN op : SeeFull(t) \/ SeeSpace(t) \/ LinEnq(t) \/ LinDeq(t) \/ Fail(t, IF Waiting THEN E.now ELSE 1000000)

Finish == /\ l = Len(Ev) + 1
          /\ Waiting /\ Tr.end # "done" => Quiescent
          /\ Tr.end = "done" => \A t \in DOMAIN op : op[t].st = "idle"
          /\ PrintT(<<"ACC", ti>>)
          /\ l' = l + 1 /\ UNCHANGED <<cap, q, op, ti>>
\* After the last event an internal step may still be needed.
TIntEnd == /\ l = Len(Ev) + 1 /\ Stay
           /\ \E t \in DOMAIN op : LinEnq(t) \/ LinDeq(t)

Next == TCall \/ TCbf \/ TCbs \/ TRet \/ TIdle \/ TAlone \/ TObs \/ TInt \/ TIntEnd \/ Finish
Spec == Init /\ [][Next]_vars

Bounded == Len(q) <= cap
=============================================================================
