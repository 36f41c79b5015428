--------------------------- MODULE BarrierTrace ----------------------------
EXTENDS Barrier, Json, TLC, IOUtils
Traces == ndJsonDeserialize(IOEnv.VT_TRACES)
VARIABLES ti, l
Tr == Traces[ti]
Ev == Tr.ev
E == Ev[l]
Init == ti \in 1 .. Len(Traces) /\ l = 1 /\ BInit(Traces[ti].sc.parties, 0 .. Traces[ti].sc.n - 1)
Is(k) == l <= Len(Ev) /\ Ev[l].k = k /\ l' = l + 1 /\ UNCHANGED ti
Next == \/ Is("call") /\ Arrive(E.t)
        \/ Is("ret") /\ Leave(E.t)
        \/ Is("reconf") /\ Reconfigure(E.v)
        \/ Is("idle") /\ Quiescent /\ UNCHANGED bvars
        \/ /\ l = Len(Ev) + 1
           /\ IF Tr.end = "done" THEN ~InUse ELSE Quiescent
           /\ PrintT(<<"ACC", ti>>) /\ l' = l + 1 /\ UNCHANGED <<bvars, ti>>
Spec == Init /\ [][Next]_<<bvars, ti, l>>
=============================================================================
