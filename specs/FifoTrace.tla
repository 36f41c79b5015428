----------------------------- MODULE FifoTrace -----------------------------
(* SynchronizedQueue: unbounded linearizable FIFO; dequeue on an empty      *)
(* queue throws EmptyException; nothing ever blocks.                        *)
EXTENDS Fifo, Json, TLC, IOUtils
Traces == ndJsonDeserialize(IOEnv.VT_TRACES)
VARIABLES ti, l
Tr == Traces[ti]
Ev == Tr.ev
E == Ev[l]
Init == ti \in 1 .. Len(Traces) /\ l = 1 /\ FInit(0 .. Traces[ti].sc.n - 1)
Is(k) == l <= Len(Ev) /\ Ev[l].k = k /\ l' = l + 1 /\ UNCHANGED ti
Next == \/ Is("call") /\ Call(E.t, E.op, E.v)
        \/ Is("ret") /\ Ret(E.t, E.r, E.v)
        \/ UNCHANGED <<ti, l>> /\ l <= Len(Ev) /\ \E t \in DOMAIN op : Lin(t)
        \/ /\ l = Len(Ev) + 1 /\ Tr.end = "done" /\ \A t \in DOMAIN op : op[t].st = "idle"
           /\ PrintT(<<"ACC", ti>>) /\ l' = l + 1 /\ UNCHANGED <<fvars, ti>>
Spec == Init /\ [][Next]_<<fvars, ti, l>>
=============================================================================
