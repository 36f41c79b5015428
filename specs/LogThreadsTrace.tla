-------------------------- MODULE LogThreadsTrace --------------------------
EXTENDS LogThreads, Json, TLC, IOUtils
Traces == ndJsonDeserialize(IOEnv.VT_TRACES)
VARIABLES ti, l
Tr == Traces[ti]
Ev == Tr.ev
E == Ev[l]
Rng(s) == {s[i] : i \in 1 .. Len(s)}
Init == /\ ti \in 1 .. Len(Traces) /\ l = 1
        /\ TInit(Traces[ti].sc.confs, 0 .. Traces[ti].sc.n - 1, Rng(Traces[ti].sc.files) \cup {"ost:"})
Is(k) == l <= Len(Ev) /\ Ev[l].k = k /\ l' = l + 1 /\ UNCHANGED ti
Call(o) == Is("call") /\ E.op = o
Next == \/ Call("conf") /\ ConfCall(E.t, E.c + 1)
        \/ Call("get") /\ Start(E.t, [o |-> "get", n |-> E.n])
        \/ Call("log") /\ LogCall(E.t, E.n, E.lv, E.m)
        \/ Call("fall") /\ Start(E.t, [o |-> "fall", did |-> {}])
        \/ Call("lflush") /\ Start(E.t, [o |-> "lflush", n |-> E.n, cand |-> live, did |-> {}])
        \/ Call("gc") /\ Start(E.t, [o |-> "gc", n |-> E.n, cand |-> live])
        \/ Is("w") /\ Written(E.t, E.u, E.s)
        \/ Is("f") /\ Flushed(E.t, E.u)
        \/ Is("ret") /\ (ConfRet(E.t) \/ LogRet(E.t) \/ FallRet(E.t) \/ LFlushRet(E.t))
        \/ Is("ret") /\ "id" \in DOMAIN E /\ GetRet(E.t, E.id, E.s)
        \/ Is("ret") /\ op[E.t].o = "gc" /\ ConfigRet(E.t, E.s)
        \/ Is("peek") /\ Peek(E.u, E.l)
        \/ UNCHANGED <<ti, l>> /\ l <= Len(Ev) /\ \E t \in DOMAIN op : Put(t) \/ Sync(t)
        \/ /\ l = Len(Ev) + 1 /\ Tr.end = "done" /\ \A t \in DOMAIN op : op[t] = Idle
           /\ PrintT(<<"ACC", ti>>) /\ l' = l + 1 /\ UNCHANGED <<tvars, ti>>
Spec == Init /\ [][Next]_<<tvars, ti, l>>
=============================================================================
