------------------------------ MODULE ForkGen ------------------------------
EXTENDS ForkP, TLC
CONSTANTS Ps, Codes
VARIABLE h
Init == PInit /\ h = ""
Log(s) == h' = h \o "|" \o s
S(x) == ToString(x)
Live == DOMAIN proc
RECURSIVE Names(_)
Names(ps) == IF ps = <<>> THEN "" ELSE " " \o S(Head(ps)) \o Names(Tail(ps))
Lists == {<<p>> : p \in Ps} \cup {<<p, q>> : p, q \in Ps}
Next == \/ \E p \in Ps \ Live, m \in 1 .. 3 : proc' = With(proc, p, Running) /\ Log("fork " \o S(p) \o " " \o S(m))
        \/ \E p \in Live, c \in Codes :
             /\ proc[p].st = "running"
             /\ \/ proc' = With(proc, p, Dead("exited", c)) /\ Log("exits " \o S(p) \o " " \o S(c))
                \/ proc' = With(proc, p, Dead("killed", 10)) /\ Log("killed " \o S(p) \o " 10")
                \/ proc' = With(proc, p, [Dead("exited", c) EXCEPT !.st = "reaped"]) /\ Log("waitlater " \o S(p) \o " " \o S(c))
        \/ \E p \in Live : \/ Reap({p}) /\ Log("check " \o S(p))
                           \/ proc[p].st # "running" /\ Reap({p}) /\ Log("wait " \o S(p))
                           \/ IF proc[p].st = "running" THEN proc' = With(proc, p, Dead("killed", 9)) /\ Log("term " \o S(p))
                                                        ELSE Reap({p}) /\ Log("term " \o S(p))
        \/ \E ps \in Lists : /\ \A i \in 1 .. Len(ps) : ps[i] \in Live /\ proc[ps[i]].st # "reaped"
                             /\ \A i, j \in 1 .. Len(ps) : ps[i] = ps[j] => i = j
                             /\ Reap({ps[i] : i \in 1 .. Len(ps)}) /\ Log("many" \o Names(ps))
Emit == PrintT(<<"SCRIPT", h'>>)
View == proc
\* A termination is reported once.
ReportedOnce == [][\A p \in Live : proc[p].st = "reaped" => proc'[p] = proc[p]]_proc
Spec == Init /\ [][Next]_<<proc, h>>
=============================================================================
