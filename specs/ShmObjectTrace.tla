-------------------------- MODULE ShmObjectTrace --------------------------
EXTENDS ShmObject, Json, TLC, IOUtils
Traces == ndJsonDeserialize(IOEnv.VT_TRACES)
VARIABLES ti, l
Tr == Traces[ti]
Ev == Tr.ev
X == Ev[l]
Init == ti \in 1 .. Len(Traces) /\ l = 1 /\ HInit
Is(o) == l <= Len(Ev) /\ X.op = o /\ l' = l + 1 /\ UNCHANGED ti
Ok == X.r = "ok"
\* Every live handle sees the content of its memory.
Sees == \A i \in 1 .. Len(X.see) : X.see[i][2] = mem[hnd[X.see[i][1]]] /\ X.see[i][3] = X.see[i][2]
Live == {h \in DOMAIN hnd : hnd[h] # 0}
Next == \/ Is("create") /\ Ok /\ Create(X.h, X.n, X.v)
        \/ Is("unnamed") /\ Ok /\ CreateUnnamed(X.h, X.v)
        \/ Is("openor") /\ Ok /\ OpenOrCreate(X.h, X.n, X.v)
        \/ Is("open") /\ Ok /\ Open(X.h, X.n)
        \/ Is("open") /\ ~Ok /\ Missing(X.n)
        \/ Is("openro") /\ Ok /\ Open(X.h, X.n)
        \/ Is("openro") /\ ~Ok /\ Missing(X.n)
        \/ Is("write") /\ Ok /\ Write(X.h, X.v)
        \/ Is("childwrite") /\ Ok /\ Write(X.h, X.v)
        \/ Is("childopen") /\ Ok /\ X.was = mem[names[X.n]] /\ WriteNamed(X.n, X.v)
        \/ Is("childopen") /\ ~Ok /\ Missing(X.n)
        \/ Is("move") /\ Ok /\ Move(X.h, X.g)
        \/ Is("destroy") /\ Ok /\ Destroy(X.h)
        \/ Is("see") /\ Sees /\ {X.see[i][1] : i \in 1 .. Len(X.see)} = Live /\ UNCHANGED vars
        \/ /\ l = Len(Ev) + 1 /\ Tr.end = "done"
           /\ PrintT(<<"ACC", ti>>) /\ l' = l + 1 /\ UNCHANGED <<vars, ti>>
Spec == Init /\ [][Next]_<<vars, ti, l>>
=============================================================================
