-------------------------- MODULE ThreadLocalTrace --------------------------
EXTENDS ThreadLocal, Json, TLC, IOUtils
Traces == ndJsonDeserialize(IOEnv.VT_TRACES)
VARIABLES ti, l
Tr == Traces[ti]
Ev == Tr.ev
X == Ev[l]
Init == ti \in 1 .. Len(Traces) /\ l = 1 /\ TInit
Is(o) == l <= Len(Ev) /\ X.op = o /\ l' = l + 1 /\ UNCHANGED ti
Rng(s) == {s[i] : i \in 1 .. Len(s)}
Once(s) == \A i, j \in 1 .. Len(s) : s[i] = s[j] => i = j
Fresh(s) == Once(s) /\ Rng(s) \cap dead = {}
Next == \/ Is("new") /\ New(X.i)
        \/ Is("start") /\ Start(X.t)
        \/ Is("get") /\ Get(X.t, X.i, X.o, X.created) /\ X.value = X.o
        \/ Is("died") /\ Fresh(X.gone) /\ Cleanup(X.t, Rng(X.gone))
        \/ Is("exit") /\ Fresh(X.gone) /\ Exit(X.t, Rng(X.gone))
        \/ Is("destroy") /\ Fresh(X.gone) /\ Destroy(X.t, X.i, Rng(X.gone))
        \/ /\ l = Len(Ev) + 1 /\ Tr.end = "done" /\ thr = {} /\ obj = <<>>
           /\ PrintT(<<"ACC", ti>>) /\ l' = l + 1 /\ UNCHANGED <<vars, ti>>
Spec == Init /\ [][Next]_<<vars, ti, l>>
=============================================================================
