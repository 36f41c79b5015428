---------------------------- MODULE ScopeExitGen ----------------------------
EXTENDS ScopeExit, TLC, FiniteSets
CONSTANTS Objs, MaxF
VARIABLES h, nf, ran
Init == SInit /\ h = "" /\ nf = 0 /\ ran = <<>>
Log(s) == h' = h \o "|" \o s
S(n) == ToString(n)
Do(x) == held' = x.h /\ ran' = ran \o x.runs
Free == Objs \ DOMAIN held
Live == DOMAIN held
Next == \/ nf < MaxF /\ nf' = nf + 1 /\ \/ \E o \in Free : Do(New(o, nf + 1)) /\ Log("new " \o S(o) \o " " \o S(nf + 1))
                                        \/ \E o \in Live : Do(Reset(o, nf + 1)) /\ Log("reset " \o S(o) \o " " \o S(nf + 1))
        \/ UNCHANGED nf /\ \/ \E o \in Live : Do(Clear(o)) /\ Log("clear " \o S(o))
                           \/ \E o \in Live : Do(Exec(o)) /\ Log("exec " \o S(o))
                           \/ \E o \in Live : Do(Destroy(o)) /\ Log("destroy " \o S(o))
                           \/ \E o \in Live, p \in Free : Do(Move(o, p)) /\ Log("move " \o S(o) \o " " \o S(p))
Emit == PrintT(<<"SCRIPT", h'>>)
View == <<held, nf, ran>>
\* Every function runs at most once, and not while it is still held.
Once == \A f \in 1 .. nf : Cardinality({i \in 1 .. Len(ran) : ran[i] = f}) + Cardinality({o \in Live : held[o] = f}) <= 1
Spec == Init /\ [][Next]_<<held, h, nf, ran>>
=============================================================================
