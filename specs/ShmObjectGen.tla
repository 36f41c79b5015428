--------------------------- MODULE ShmObjectGen ---------------------------
EXTENDS ShmObject, TLC
CONSTANTS Hs, Ns, MaxMem, MaxV
VARIABLES h, ro, nv
Init == HInit /\ h = "" /\ ro = {} /\ nv = 0
Log(s) == h' = h \o "|" \o s
S(x) == ToString(x)
Free == Hs \ DOMAIN hnd
Live == {x \in DOMAIN hnd : hnd[x] # 0}
V == nv + 1
Next == \/ Len(mem) < MaxMem /\ nv' = V /\ UNCHANGED ro /\ \E x \in Free :
             \/ \E n \in Ns : Create(x, n, V) /\ Log("create " \o S(x) \o " " \o n \o " " \o S(V))
             \/ CreateUnnamed(x, V) /\ Log("unnamed " \o S(x) \o " " \o S(V))
             \/ \E n \in Ns : OpenOrCreate(x, n, V) /\ Log("openor " \o S(x) \o " " \o n \o " " \o S(V))
        \/ UNCHANGED nv /\ \E x \in Free, n \in Ns :
             \/ Open(x, n) /\ Log("open " \o S(x) \o " " \o n) /\ UNCHANGED ro
             \/ Open(x, n) /\ Log("openro " \o S(x) \o " " \o n) /\ ro' = ro \cup {x}
        \/ UNCHANGED <<nv, ro>> /\ \E n \in Ns, o \in {"open", "openro"} : Missing(n) /\ Log(o \o " 9 " \o n)
        \/ nv < MaxV /\ nv' = V /\ UNCHANGED ro /\
             \/ \E x \in Live \ ro : Write(x, V) /\ \/ Log("write " \o S(x) \o " " \o S(V))
                                                    \/ Log("childwrite " \o S(x) \o " " \o S(V))
             \/ \E n \in Ns : WriteNamed(n, V) /\ Log("childopen " \o n \o " " \o S(V))
        \/ UNCHANGED nv /\ \E x \in Live, g \in Free : Move(x, g) /\ Log("move " \o S(x) \o " " \o S(g)) /\ ro' = IF x \in ro THEN (ro \ {x}) \cup {g} ELSE ro
        \/ UNCHANGED nv /\ \E x \in DOMAIN hnd : hnd[x] = 0 /\ Destroy(x) /\ Log("destroy " \o S(x)) /\ ro' = ro \ {x}
Emit == PrintT(<<"SCRIPT", h'>>)
View == <<names, hnd, ro, Len(mem), nv>>
Valid == \A x \in Live : hnd[x] \in 1 .. Len(mem)
Spec == Init /\ [][Next]_<<vars, h, ro, nv>>
=============================================================================
