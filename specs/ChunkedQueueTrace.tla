------------------------- MODULE ChunkedQueueTrace-------------------------
EXTENDS ChunkedQueue, Json, TLC, IOUtils
Traces == ndJsonDeserialize(IOEnv.VT_TRACES)
VARIABLES ti, l
vars == <<cap, over, strict, q, op, ti, l>>
Tr == Traces[ti]
Ev == Tr.ev
Threads(tr) == 0 .. tr.sc.n - 1
Init == /\ ti \in 1 .. Len(Traces) /\ l = 1
        /\ QInit(Traces[ti].sc.cap, Traces[ti].sc.throwOver = 1, Traces[ti].sc.strict = 1, Threads(Traces[ti]))
Is(k) == l <= Len(Ev) /\ Ev[l].k = k /\ l' = l + 1 /\ UNCHANGED ti
E == Ev[l]
Stay == UNCHANGED <<ti, l>>
TCall  == Is("call") /\ Call(E.t, E.op, E.v, E.p, E.c, E.w, E.now)
TRet   == Is("ret") /\ Ret(E.t, E.r, E.v)
TIdle  == Is("idle") /\ Quiescent /\ UNCHANGED qvars
TAlone == Is("alone") /\ UNCHANGED qvars
TObs   == /\ Is("obs") /\ UNCHANGED qvars
          /\ Alone(E.t) => (E.r = 1) = (IF E.op = "empty" THEN q = <<>> ELSE IF strict THEN Pieces(q) >= cap ELSE E.r = 1)
TInt   == /\ l <= Len(Ev) /\ Stay
          /\ \E t \in DOMAIN op : Begin(t) \/ End(t) \/ LinDeq(t) \/ Fail(t, E.now)
Finish == /\ l = Len(Ev) + 1
          /\ Tr.end # "done" => Quiescent
          /\ Tr.end = "done" => \A t \in DOMAIN op : op[t].st = "idle"
          /\ PrintT(<<"ACC", ti>>)
          /\ l' = l + 1 /\ UNCHANGED <<cap, over, strict, q, op, ti>>
TIntEnd == /\ l = Len(Ev) + 1 /\ Stay
           /\ \E t \in DOMAIN op : Begin(t) \/ End(t) \/ LinDeq(t)
Next == TCall \/ TRet \/ TIdle \/ TAlone \/ TObs \/ TInt \/ TIntEnd \/ Finish
Spec == Init /\ [][Next]_vars
Bounded == TRUE
=============================================================================
