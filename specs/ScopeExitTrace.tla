--------------------------- MODULE ScopeExitTrace ---------------------------
EXTENDS ScopeExit, Json, TLC, IOUtils
Traces == ndJsonDeserialize(IOEnv.VT_TRACES)
VARIABLES ti, l
Tr == Traces[ti]
Ev == Tr.ev
X == Ev[l]
Init == ti \in 1 .. Len(Traces) /\ l = 1 /\ SInit
Is(o) == l <= Len(Ev) /\ X.op = o /\ l' = l + 1 /\ UNCHANGED ti
Do(x) == held' = x.h /\ X.runs = x.runs
Next == \/ Is("new") /\ Do(New(X.o, X.f))
        \/ Is("clear") /\ Do(Clear(X.o))
        \/ Is("reset") /\ Do(Reset(X.o, X.f))
        \/ Is("exec") /\ Do(Exec(X.o))
        \/ Is("move") /\ Do(Move(X.o, X.q))
        \/ Is("destroy") /\ Do(Destroy(X.o))
        \/ /\ l = Len(Ev) + 1 /\ Tr.end = "done" /\ DOMAIN held = {}
           /\ PrintT(<<"ACC", ti>>) /\ l' = l + 1 /\ UNCHANGED <<held, ti>>
Spec == Init /\ [][Next]_<<held, ti, l>>
=============================================================================
