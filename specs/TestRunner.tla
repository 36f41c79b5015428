----------------------------- MODULE TestRunner -----------------------------
(* The test runner.                                                           *)
(*                                                                            *)
(* A test has three phases (setup, body, teardown), each of which passes,     *)
(* throws an assertion, throws something else, or ends the process.  A test   *)
(* belongs to a group, which names the execution models it runs in.           *)
EXTENDS Naturals, Sequences, FiniteSets
Models == {"SingleThreaded", "WorkerThreads", "WorkerProcesses", "ProcessPerTest"}
Ends == {"C", "A", "K", "X", "Y"}          \* the process ends: segmentation fault, abort, killed, exit
Severity(p) == CASE p = "P" -> 0 [] p = "I" -> 1 [] p \in {"F", "B"} -> 2 [] p \in {"E", "O"} -> 3 [] OTHER -> 4
Max(S) == CHOOSE x \in S : \A y \in S : y <= x
\* The phases of a test that take place.
Phases(t) == IF t.setup \in Ends THEN <<"setup">>
             ELSE IF t.setup # "P" THEN <<"setup", "teardown", "end">>
             ELSE IF t.body \in Ends THEN <<"setup", "body">>
             ELSE <<"setup", "body", "teardown", "end">>
Happens(t) == LET p == Phases(t) IN IF t.teardown \in Ends THEN SelectSeq(p, LAMBDA x : x # "end") ELSE p
Kind(t, p) == CASE p = "setup" -> t.setup [] p = "body" -> t.body [] p = "teardown" -> t.teardown [] OTHER -> "P"
Outcomes(t) == {Kind(t, Happens(t)[i]) : i \in 1 .. Len(Happens(t))}
Dies(t) == Outcomes(t) \cap Ends # {}
Result(t) == LET m == Max({Severity(p) : p \in Outcomes(t)}) IN
             CASE m = 0 -> "pass" [] m = 1 -> "ignored" [] m = 2 -> "fail" [] OTHER -> "error"

(* Selection by a list of patterns, separated by commas or blanks.            *)
STAR == 42
QM == 63
COMMA == 44
BLANK == 32
RECURSIVE Glob(_, _)
Glob(p, s) == IF p = <<>> THEN s = <<>>
              ELSE IF Head(p) = STAR THEN Glob(Tail(p), s) \/ (s # <<>> /\ Glob(p, Tail(s)))
              ELSE s # <<>> /\ (Head(p) = QM \/ Head(p) = Head(s)) /\ Glob(Tail(p), Tail(s))
RECURSIVE Words(_, _)
Words(s, w) == IF s = <<>> THEN (IF w = <<>> THEN {} ELSE {w})
               ELSE IF Head(s) \in {COMMA, BLANK} THEN (IF w = <<>> THEN {} ELSE {w}) \cup Words(Tail(s), <<>>)
               ELSE Words(Tail(s), Append(w, Head(s)))
Patterns(args) == UNION {Words(args[i], <<>>) : i \in 1 .. Len(args)}
\* No arguments: all the tests.  (Arguments without any pattern in them select nothing.)
Selected(args, name) == args = <<>> \/ \E p \in Patterns(args) : Glob(p, name)

Least(a, b) == IF a < b THEN a ELSE b
Limit == 128
=============================================================================
