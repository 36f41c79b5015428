-------------------------- MODULE SemaphoreTrace ---------------------------
EXTENDS Semaphore, Json, TLC, IOUtils
Traces == ndJsonDeserialize(IOEnv.VT_TRACES)
VARIABLES ti, l
Tr == Traces[ti]
Ev == Tr.ev
E == Ev[l]
Init == ti \in 1 .. Len(Traces) /\ l = 1 /\ SInit(Traces[ti].sc.init, 0 .. Traces[ti].sc.n - 1)
Is(k) == l <= Len(Ev) /\ Ev[l].k = k /\ l' = l + 1 /\ UNCHANGED ti
Next == \/ Is("call") /\ Call(E.t, E.op)
        \/ Is("ret") /\ Ret(E.t)
        \/ Is("idle") /\ Quiescent /\ UNCHANGED svars
        \/ /\ UNCHANGED <<ti, l>> /\ l <= Len(Ev) + 1
           /\ \E t \in DOMAIN op : LinInc(t) \/ LinDec(t)
        \/ /\ l = Len(Ev) + 1
           /\ IF Tr.end = "done" THEN \A t \in DOMAIN op : op[t].st = "idle" ELSE Quiescent
           /\ PrintT(<<"ACC", ti>>) /\ l' = l + 1 /\ UNCHANGED <<svars, ti>>
Spec == Init /\ [][Next]_<<svars, ti, l>>
=============================================================================
