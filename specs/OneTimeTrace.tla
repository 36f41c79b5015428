--------------------------- MODULE OneTimeTrace ----------------------------
EXTENDS OneTime, Json, TLC, IOUtils
Traces == ndJsonDeserialize(IOEnv.VT_TRACES)
VARIABLES ti, l
Tr == Traces[ti]
Ev == Tr.ev
E == Ev[l]
Init == ti \in 1 .. Len(Traces) /\ l = 1 /\ OInit(0 .. Traces[ti].sc.n - 1)
Is(k) == l <= Len(Ev) /\ Ev[l].k = k /\ l' = l + 1 /\ UNCHANGED ti
Next == \/ Is("call") /\ Call(E.t)
        \/ Is("begin") /\ Begin(E.t)
        \/ Is("success") /\ Success(E.t, E.v)
        \/ Is("throw") /\ Throw(E.t)
        \/ Is("ret") /\ Ret(E.t, E.v, E.a)
        \/ Is("retexc") /\ RetExc(E.t)
        \/ Is("obs") /\ Observe(E.t, E.r = 1)
        \/ Is("destroy") /\ Destroy
        \/ Is("endcall") /\ EndCall(E.v)
        \/ Is("destroyed") /\ Destroyed(Tr.sc.hasEnd = 1)
        \* Nobody may be stuck: the only thing to wait for is a running user function, which ends.
        \/ /\ l = Len(Ev) + 1 /\ Tr.end = "done" /\ \A t \in DOMAIN op : op[t] = "idle"
           /\ PrintT(<<"ACC", ti>>) /\ l' = l + 1 /\ UNCHANGED <<ovars, ti>>
Spec == Init /\ [][Next]_<<ovars, ti, l>>
=============================================================================
