--------------------------- MODULE ThreadLocalGen ---------------------------
EXTENDS ThreadLocal, TLC
CONSTANTS Ts, Is, MaxObj, MaxInst
VARIABLES h, n, ni
allvars == <<vars, h, n, ni>>
Init == TInit /\ h = "" /\ n = 0 /\ ni = 0
Log(s) == h' = h \o "|" \o s
S(x) == ToString(x)
Next == \/ \E i \in Is \ inst : ni < MaxInst /\ ni' = ni + 1 /\ New(i) /\ Log("new " \o S(i)) /\ UNCHANGED n
        \/ \E t \in Ts \ thr : Start(t) /\ Log("start " \o S(t)) /\ UNCHANGED <<n, ni>>
        \/ \E t \in thr, i \in inst :
             IF <<t, i>> \in DOMAIN obj THEN Get(t, i, obj[<<t, i>>], FALSE) /\ Log("get " \o S(t) \o " " \o S(i)) /\ UNCHANGED <<n, ni>>
             ELSE n < MaxObj /\ n' = n + 1 /\ Get(t, i, n + 1, TRUE) /\ Log("get " \o S(t) \o " " \o S(i)) /\ UNCHANGED ni
        \/ \E t \in thr : Exit(t, {obj[x] : x \in {y \in DOMAIN obj : y[1] = t}} \cup {x[2] : x \in {y \in orphans : y[1] = t}}) /\ Log("exit " \o S(t)) /\ UNCHANGED <<n, ni>>
        \/ \E t \in thr, i \in inst : Destroy(t, i, {obj[x] : x \in {y \in DOMAIN obj : y = <<t, i>>}}) /\ Log("destroy " \o S(t) \o " " \o S(i)) /\ UNCHANGED <<n, ni>>
Emit == PrintT(<<"SCRIPT", h'>>)
View == <<vars, n, ni>>
\* No object serves two threads or two instances, none is destroyed while in use.
Separate == \A x, y \in DOMAIN obj : obj[x] = obj[y] => x = y
Alive == \A x \in DOMAIN obj : obj[x] \notin dead
Spec == Init /\ [][Next]_allvars
=============================================================================
