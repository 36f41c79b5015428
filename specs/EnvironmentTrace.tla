-------------------------- MODULE EnvironmentTrace --------------------------
EXTENDS Environment, Json, TLC, IOUtils
Traces == ndJsonDeserialize(IOEnv.VT_TRACES)
VARIABLES ti, l
Tr == Traces[ti]
Ev == Tr.ev
X == Ev[l]
Init == ti \in 1 .. Len(Traces) /\ l = 1
Is(o) == l <= Len(Ev) /\ X.op = o /\ l' = l + 1 /\ UNCHANGED ti
Hard == {LET h == X.hard[i] IN [path |-> h[1], kind |-> h[2], type |-> h[3], def |-> IF h[4] THEN Value(h[3], h[5]) ELSE None] : i \in 1 .. Len(X.hard)}
Built == LET e == Build({<<X.files[i][1], X.files[i][2]>> : i \in 1 .. Len(X.files)}, X.ins, X.sps, Hard) IN
   /\ Expected(e, X.res, Range(X.bound))
   /\ X.wrong = ""
   \* Another injector of the same configuration.
   /\ X.res = "ok" => X.res2 = "ok" /\ Range(X.bound2) = Range(X.bound)
Next == \/ Is("build") /\ Built
        \/ l = Len(Ev) + 1 /\ Tr.end \in {"done", "part"} /\ PrintT(<<"ACC", ti>>) /\ l' = l + 1 /\ UNCHANGED ti
Spec == Init /\ [][Next]_<<ti, l>>
=============================================================================
