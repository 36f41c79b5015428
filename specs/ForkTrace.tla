----------------------------- MODULE ForkTrace -----------------------------
EXTENDS ForkP, Json, TLC, IOUtils
Traces == ndJsonDeserialize(IOEnv.VT_TRACES)
VARIABLES ti, l
Tr == Traces[ti]
Ev == Tr.ev
X == Ev[l]
Init == ti \in 1 .. Len(Traces) /\ l = 1 /\ PInit
Is(o) == l <= Len(Ev) /\ X.op = o /\ l' = l + 1 /\ UNCHANGED ti
Next == \/ Is("fork") /\ X.fresh /\ proc' = With(proc, X.p, Running)
        \/ Is("exits") /\ proc' = With(proc, X.p, Dead("exited", X.c))
        \/ Is("killed") /\ proc' = With(proc, X.p, Dead("killed", X.c))
        \* The child looked at what it got from the fork call.
        \/ Is("child") /\ X.ran = 1 /\ UNCHANGED proc
        \/ Is("check") /\ Check(X.p) = [r |-> X.r, v |-> X.v] /\ Reap({X.p})
        \/ Is("wait") /\ Check(X.p) = [r |-> X.r, v |-> X.v] /\ Reap({X.p})
        \/ Is("waitlater") /\ proc[X.p].st = "running" /\ X.r = "ok" /\ X.v = [p |-> X.p, code |-> "exited", status |-> X.c]
                           /\ proc' = With(proc, X.p, [Dead("exited", X.c) EXCEPT !.st = "reaped"])
        \/ Is("term") /\ Check(X.p) = [r |-> X.r, v |-> X.v]
                      /\ IF proc[X.p].st = "running" THEN X.died /\ proc' = With(proc, X.p, Dead("killed", 9)) ELSE Reap({X.p})
        \/ Is("many") /\ X.r = "ok" /\ X.v = CheckMany(X.ps) /\ Reap({X.ps[i] : i \in 1 .. Len(X.ps)})
        \/ Is("bad") /\ X.r = "ok" /\ X.v = Empty /\ X.n = 0 /\ UNCHANGED proc
        \/ /\ l = Len(Ev) + 1 /\ Tr.end = "done"
           /\ PrintT(<<"ACC", ti>>) /\ l' = l + 1 /\ UNCHANGED <<proc, ti>>
Spec == Init /\ [][Next]_<<proc, ti, l>>
=============================================================================
