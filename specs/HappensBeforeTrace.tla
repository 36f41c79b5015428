------------------------ MODULE HappensBeforeTrace -------------------------
EXTENDS HappensBefore, Json, TLC, IOUtils

Traces == ndJsonDeserialize(IOEnv.VT_TRACES)
VARIABLES ti, l
vars == <<C, RF, AP, L, W, R, race, ti, l>>
Ev == Traces[ti].ev
E == Ev[l]

Init == /\ ti \in 1 .. Len(Traces) /\ l = 1
        /\ HInit(0 .. Traces[ti].sc.n - 1)

Step == /\ l <= Len(Ev) /\ l' = l + 1 /\ UNCHANGED ti
        /\ \/ E.k = "lock" /\ Lock(E.t, E.o)
           \/ E.k = "unlock" /\ Unlock(E.t, E.o)
           \/ E.k = "aload" /\ Load(E.t, E.o, E.mo)
           \/ E.k = "astore" /\ Store(E.t, E.o, E.mo)
           \/ E.k = "armw" /\ Rmw(E.t, E.o, E.mo)
           \/ E.k = "fence" /\ Fence(E.t, E.mo)
           \/ E.k = "pw" /\ Write(E.t, E.o)
           \/ E.k = "pr" /\ Read(E.t, E.o)
Finish == /\ l = Len(Ev) + 1 /\ race = {} /\ PrintT(<<"ACC", ti>>)
          /\ l' = l + 1 /\ UNCHANGED <<C, RF, AP, L, W, R, race, ti>>
Next == Step \/ Finish
Spec == Init /\ [][Next]_vars
=============================================================================
