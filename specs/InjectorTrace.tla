--------------------------- MODULE InjectorTrace ---------------------------
EXTENDS Injector, Json, TLC, IOUtils
Traces == ndJsonDeserialize(IOEnv.VT_TRACES)
VARIABLES ti, l
Tr == Traces[ti]
Ev == Tr.ev
X == Ev[l]
Init == ti \in 1 .. Len(Traces) /\ l = 1 /\ IInit
Is(o) == l <= Len(Ev) /\ X.op = o /\ l' = l + 1 /\ UNCHANGED ti
F(f, d) == IF f \in DOMAIN X THEN X[f] ELSE d
Next == \/ Is("create") /\ Create(X.i, X.p, X.bs, X.res, X.ext, X.posts, X.pres, X.ran, X.stat, X.made, X.hap)
        \/ Is("validate") /\ Validate(X.i, X.p, X.bs, X.res, X.ext, X.made, X.ran)
        \/ Is("dropv") /\ UNCHANGED ivars
        \/ Is("proto") /\ Proto(X.i, X.p, X.q, X.made, X.hap)
        \/ Is("get") /\ Get(X.t, X.i, X.k, X.n, X.d, X.res, F("o", -1), F("def", 0), F("supplied", 0), X.made, X.hap)
        \/ Is("has") /\ Has(X.i, X.k, X.n, X.r) /\ X.made = <<>> /\ X.hap = <<>>
        \/ Is("iter") /\ Iterate(X.t, X.i, X.k, X.tl, X.objs, X.made, X.hap)
        \/ Is("drop") /\ Drop(X.i, X.made, X.hap)
        \/ Is("exit") /\ Exit(X.t, X.hap) /\ X.made = <<>>
        \/ Is("stat") /\ Static(X.s, X.o) /\ X.made = <<>> /\ X.hap = <<>>
        \/ Is("many") /\ Many(X.n, X.res, X.found, X.right, X.extra, X.got)
        \/ /\ l = Len(Ev) + 1
           \* At the end everything is destroyed ("part": a prefix, for diagnosis).
           /\ (Tr.end = "done" /\ handles = {} /\ dead = DOMAIN objs) \/ Tr.end = "part"
           /\ PrintT(<<"ACC", ti>>) /\ l' = l + 1 /\ UNCHANGED <<ivars, ti>>
Spec == Init /\ [][Next]_<<ivars, ti, l>>
=============================================================================
