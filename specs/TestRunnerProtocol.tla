------------------------- MODULE TestRunnerProtocol -------------------------
(* How worker processes share the tests out, and what becomes of a test that  *)
(* ends its process.  There is a counter of tests claimed, and, for each of   *)
(* the places of worker processes, the number of the test the process in it   *)
(* has claimed.  A process that takes the place of one that went away without *)
(* being done reports the test that one had claimed as an error.              *)
EXTENDS Naturals, Sequences, FiniteSets
CONSTANTS Tests, Places, PerTest
VARIABLES kind,      \* what each test does: "ok" (it ends, with whatever result) or "dies"
          next,      \* number of tests claimed (claims past the last test change nothing, and are not counted on)
          claim,     \* per place: the test claimed, 0 for none
          proc,      \* per place: "none", "new", "idle", "runs", "gone" (ended, not yet noticed), "over"
          queue,     \* results on their way to the parent
          result,    \* per test: "no" or the result the parent has
          printed,   \* number of results printed
          ran        \* per test: how many times it was started
vars == <<kind, next, claim, proc, queue, result, printed, ran>>
T == 1 .. Tests
P == 1 .. Places
Init == /\ kind \in [T -> {"ok", "dies"}] /\ next = 0 /\ claim = [p \in P |-> 0] /\ proc = [p \in P |-> "none"] /\ queue = <<>>
        /\ result = [t \in T |-> "no"] /\ printed = 0 /\ ran = [t \in T |-> 0]
AllHere == \A t \in T : result[t] # "no"
Start(p) == /\ proc[p] = "none" /\ ~AllHere /\ proc' = [proc EXCEPT ![p] = "new"] /\ UNCHANGED <<kind, next, claim, queue, result, printed, ran>>
\* The first thing a process does: report what the process before it left.
Inherit(p) == /\ proc[p] = "new" /\ proc' = [proc EXCEPT ![p] = "idle"]
              /\ queue' = IF claim[p] \in T THEN Append(queue, <<claim[p], "error">>) ELSE queue
              /\ UNCHANGED <<kind, next, claim, result, printed, ran>>
Claim(p) == /\ proc[p] = "idle" /\ next' = (IF next > Tests THEN next ELSE next + 1) /\ claim' = [claim EXCEPT ![p] = next + 1]
            /\ proc' = [proc EXCEPT ![p] = IF next + 1 \in T THEN "runs" ELSE "over"]
            /\ ran' = IF next + 1 \in T THEN [ran EXCEPT ![next + 1] = @ + 1] ELSE ran
            /\ UNCHANGED <<kind, queue, result, printed>>
\* In the process-per-test model the process is done after the test, and says so by giving up its claim.
Finish(p) == /\ proc[p] = "runs" /\ kind[claim[p]] = "ok" /\ queue' = Append(queue, <<claim[p], "done">>)
             /\ IF PerTest THEN proc' = [proc EXCEPT ![p] = "over"] ELSE proc' = [proc EXCEPT ![p] = "idle"]
             /\ claim' = IF PerTest THEN [claim EXCEPT ![p] = 0] ELSE claim
             /\ UNCHANGED <<kind, next, result, printed, ran>>
Die(p) == /\ proc[p] = "runs" /\ kind[claim[p]] = "dies" /\ proc' = [proc EXCEPT ![p] = "gone"] /\ UNCHANGED <<kind, next, claim, queue, result, printed, ran>>
\* The parent notices: a process that left a claim behind is replaced; so is, per test, one that is done.
Notice(p) == /\ (proc[p] = "gone" \/ (PerTest /\ proc[p] = "over")) /\ ~AllHere
             /\ proc' = [proc EXCEPT ![p] = "none"] /\ UNCHANGED <<kind, next, claim, queue, result, printed, ran>>
Take == /\ queue # <<>> /\ result' = [result EXCEPT ![Head(queue)[1]] = Head(queue)[2]] /\ queue' = Tail(queue)
        /\ UNCHANGED <<kind, next, claim, proc, printed, ran>>
Print == /\ printed < Tests /\ result[printed + 1] # "no" /\ printed' = printed + 1 /\ UNCHANGED <<kind, next, claim, proc, queue, result, ran>>
Next == Take \/ Print \/ \E p \in P : Start(p) \/ Inherit(p) \/ Claim(p) \/ Finish(p) \/ Die(p) \/ Notice(p)
Fair == /\ WF_vars(Take) /\ WF_vars(Print)
        /\ \A p \in P : WF_vars(Start(p)) /\ WF_vars(Inherit(p)) /\ WF_vars(Claim(p)) /\ WF_vars(Finish(p)) /\ WF_vars(Die(p)) /\ WF_vars(Notice(p))
Spec == Init /\ [][Next]_vars /\ Fair
Once == \A t \in T : ran[t] <= 1 /\ Cardinality({i \in 1 .. Len(queue) : queue[i][1] = t}) + (IF result[t] = "no" THEN 0 ELSE 1) <= 1
Right == \A t \in T : result[t] # "no" => ran[t] = 1 /\ (result[t] = "error" <=> kind[t] = "dies")
Order == \A t \in T : t <= printed => result[t] # "no"
AtMost == Cardinality({p \in P : proc[p] \in {"new", "idle", "runs"}}) <= Places
Complete == <>(printed = Tests)
=============================================================================
