------------------------------- MODULE ForkP -------------------------------
(* Fork: child processes and the reports about their termination.           *)
EXTENDS Integers, Sequences, FiniteSets
VARIABLE proc   \* process -> [st: running | dead | reaped, code, status]
With(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]
PInit == proc = <<>>
Running == [st |-> "running", code |-> "none", status |-> 0]
Dead(c, s) == [st |-> "dead", code |-> c, status |-> s]
Empty == [p |-> 0, code |-> "none", status |-> 0]
Report(p) == [p |-> p, code |-> proc[p].code, status |-> proc[p].status]
Reap(S) == proc' = [x \in DOMAIN proc |-> IF x \in S /\ proc[x].st = "dead" THEN [proc[x] EXCEPT !.st = "reaped"] ELSE proc[x]]
\* Results: [r: outcome, v: report].
Check(p) == IF proc[p].st = "reaped" THEN [r |-> "WaitException", v |-> Empty]
            ELSE [r |-> "ok", v |-> IF proc[p].st = "dead" THEN Report(p) ELSE Empty]
RECURSIVE CheckMany(_)
CheckMany(ps) == IF ps = <<>> THEN <<>>
                 ELSE (IF proc[Head(ps)].st = "dead" THEN <<Report(Head(ps))>> ELSE <<>>) \o CheckMany(Tail(ps))
=============================================================================
