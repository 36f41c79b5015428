--------------------------- MODULE TestRunnerTrace ---------------------------
(* A run of the test runner: what the tests did, in which process and thread, *)
(* then what was printed and reported.                                        *)
EXTENDS TestRunner, Json, TLC, IOUtils
Traces == ndJsonDeserialize(IOEnv.VT_TRACES)
VARIABLES ti, l,
          tests,     \* the tests registered
          r,         \* the run
          at,        \* per worker seen: the test it is at and the phases it has done
          done,      \* tests that have ended
          out        \* what was printed and reported so far
vars == <<ti, l, tests, r, at, done, out>>
Tr == Traces[ti]
Ev == Tr.ev
X == Ev[l]
NoRun == [how |-> "none"]
NoOut == [group |-> "", lines |-> <<>>, groups |-> <<>>, reports |-> {}]
Init == ti \in 1 .. Len(Traces) /\ l = 1 /\ tests = <<>> /\ r = NoRun /\ at = <<>> /\ done = {} /\ out = NoOut
Is(o) == l <= Len(Ev) /\ X.op = o /\ l' = l + 1 /\ UNCHANGED ti
Set(s) == {s[i] : i \in 1 .. Len(s)}
Register == Is("test") /\ tests' = Append(tests, X) /\ X.t = Len(tests) + 1 /\ UNCHANGED <<r, at, done, out>>
Run == Is("run") /\ r' = X /\ UNCHANGED <<tests, at, done, out>>

All == 1 .. Len(tests)
Chosen == IF r.how = "help" THEN {} ELSE {t \in All : Selected(r.args, tests[t].name)}
Runs(t) == r.model \in Set(tests[t].models)
ToRun == {t \in Chosen : Runs(t)}
Forks == r.model \in {"WorkerProcesses", "ProcessPerTest"}
Conc == IF r.model = "SingleThreaded" THEN 1 ELSE Least(r.conc, Limit)

(* The tests are carried out.                                                 *)
Busy(a) == a.t # 0
Dead(a) == a.t # 0 /\ Dies(tests[a.t]) /\ a.n = Len(Happens(tests[a.t]))
Fresh(w) == w = Len(at) + 1
Place(w) == /\ X.parent = ~Forks
            /\ r.model = "SingleThreaded" => X.main
            /\ r.model = "WorkerThreads" => ~X.main
Started == done \cup {at[w].t : w \in 1 .. Len(at)}
Active == Cardinality({w \in 1 .. Len(at) : Busy(at[w]) /\ ~Dead(at[w])})
Deaths == Cardinality({w \in 1 .. Len(at) : Busy(at[w]) /\ Dead(at[w])})
\* The setup of tests whose body is never reached does not say which of its group's tests it is for.
Candidates == IF X.t # 0 THEN {X.t} \cap (ToRun \ Started)
              ELSE LET c == {t \in ToRun \ Started : tests[t].label = X.label /\ tests[t].setup # "P"} IN IF c = {} THEN {} ELSE {CHOOSE t \in c : \A u \in c : t <= u}
Begin == /\ Is("step") /\ X.p = "setup" /\ Place(X.w)
         /\ \E t \in Candidates :
              /\ tests[t].label = X.label
              /\ IF Fresh(X.w)
                 THEN /\ X.w <= Conc + (IF r.model = "ProcessPerTest" THEN Len(tests) ELSE Deaths)
                      /\ Forks => X.before = 0
                      /\ at' = Append(at, [t |-> t, n |-> 1])
                 ELSE /\ ~Busy(at[X.w]) /\ r.model # "ProcessPerTest"
                      /\ at' = [at EXCEPT ![X.w] = [t |-> t, n |-> 1]]
              \* in order, where there is only one at a time
              /\ Conc = 1 => \A u \in ToRun : tests[u].group = tests[t].group /\ u < t => u \in Started
         /\ Active < Conc
         /\ UNCHANGED <<tests, r, done, out>>
Go == /\ Is("step") /\ X.p # "setup" /\ Place(X.w) /\ X.w <= Len(at) /\ Busy(at[X.w])
      /\ LET a == at[X.w] h == Happens(tests[a.t]) IN
         /\ X.label = tests[a.t].label /\ X.t \in {a.t, 0}
         /\ a.n < Len(h) /\ h[a.n + 1] = X.p
         /\ IF X.p = "end" THEN at' = [at EXCEPT ![X.w] = [t |-> 0, n |-> 0]] /\ done' = done \cup {a.t}
            ELSE at' = [at EXCEPT ![X.w].n = @ + 1] /\ UNCHANGED done
      /\ UNCHANGED <<tests, r, out>>
Worst == {IF Runs(t) THEN Result(tests[t]) ELSE "ignored" : t \in Chosen}
Ran == /\ Is("ran") /\ X.res = "ok"
       /\ \A w \in 1 .. Len(at) : Busy(at[w]) => Dead(at[w])
       /\ Started \ {0} = ToRun
       /\ X.rc = (IF Worst \cap {"fail", "error"} = {} THEN 0 ELSE 1)
       /\ UNCHANGED <<tests, r, at, done, out>>

(* The results are printed, group by group, in the order of registration.     *)
Groups == {tests[t].group : t \in Chosen}
In(g) == {t \in Chosen : tests[t].group = g}
Shown(t) == IF ~Runs(t) THEN "none" ELSE IF Dies(tests[t]) THEN "crashed" ELSE CASE Result(tests[t]) = "pass" -> "pass" [] Result(tests[t]) = "ignored" -> "ignored" [] OTHER -> "failed"
Start == /\ Is("start") /\ out.group = "" /\ X.group \in Groups /\ X.group \notin Set(out.groups)
         /\ out' = [out EXCEPT !.group = X.group, !.groups = Append(@, X.group)] /\ UNCHANGED <<tests, r, at, done>>
Line == /\ Is("line") /\ X.t \in Chosen /\ X.t \notin Set(out.lines) /\ tests[X.t].group = out.group /\ X.r = Shown(X.t)
        /\ \A u \in In(out.group) : u < X.t /\ Runs(u) => u \in Set(out.lines)
        /\ out' = [out EXCEPT !.lines = Append(@, X.t)] /\ UNCHANGED <<tests, r, at, done>>
Completed == /\ Is("completed") /\ X.group = out.group /\ \A u \in In(out.group) : Runs(u) => u \in Set(out.lines)
             /\ out' = [out EXCEPT !.group = ""] /\ UNCHANGED <<tests, r, at, done>>
Outcome(t) == IF Runs(t) THEN Result(tests[t]) ELSE "ignored"
Count(k) == Cardinality({t \in Chosen : Outcome(t) = k})
Bad(t) == Outcome(t) \in {"fail", "error"}
\* The order of all the tests: the groups as printed.
Rank(g) == CHOOSE i \in 1 .. Len(out.groups) : out.groups[i] = g
Before(t, u) == Rank(tests[t].group) < Rank(tests[u].group) \/ (tests[t].group = tests[u].group /\ t < u)
Summary == /\ Is("summary") /\ out.group = "" /\ Set(out.groups) = Groups
           /\ LET bad == {t \in Chosen : Bad(t)} IN
              /\ X.verdict = (IF bad = {} THEN "passed" ELSE "failed")
              /\ X.passed = Count("pass") /\ X.ignored = Count("ignored") /\ X.failed = Count("fail") /\ X.errored = Count("error")
              /\ Set(X.list) = bad /\ Len(X.list) = Cardinality(bad)
              /\ \A i, j \in 1 .. Len(X.list) : i < j => Before(X.list[i], X.list[j])
           /\ UNCHANGED <<tests, r, at, done, out>>
\* The text of a result has what the phases said that failed.
Says(t) == IF ~Runs(t) \/ Dies(tests[t]) THEN <<>> ELSE
           [i \in 1 .. 3 |-> LET p == <<"setup", "body", "teardown">>[i] IN p \in Set(Happens(tests[t])) /\ Kind(tests[t], p) \in {"F", "B", "E"}]
Case(g, c) == /\ c.t \in In(g) /\ c.r = Outcome(c.t)
              /\ (Says(c.t) # <<>> /\ Outcome(c.t) \in {"fail", "error"}) => c.m = Says(c.t)
Cases(g, cs) == /\ Len(cs) = Cardinality(In(g)) /\ {cs[i].t : i \in 1 .. Len(cs)} = In(g)
                /\ \A i \in 1 .. Len(cs) : Case(g, cs[i])
                /\ \A i, j \in 1 .. Len(cs) : i < j => cs[i].t < cs[j].t
Report == /\ Is("report") /\ X.group \in Groups /\ X.group \notin out.reports /\ r.how \notin {"surefire", "modelnone", "nogen", "help"} /\ Cases(X.group, X.cases)
          /\ out' = [out EXCEPT !.reports = @ \cup {X.group}] /\ UNCHANGED <<tests, r, at, done>>
Xml == /\ Is("xml") /\ r.how = "surefire" /\ X.group \in Groups /\ X.group \notin out.reports /\ Cases(X.group, X.cases)
       /\ X.file = "TEST-" \o X.group \o ".xml" /\ X.tests = Len(X.cases)
       /\ LET n(k) == Cardinality({t \in In(X.group) : Outcome(t) = k}) IN X.failures = n("fail") /\ X.errors = n("error") /\ X.skipped = n("ignored")
       /\ \A i \in 1 .. Len(X.cases) : X.cases[i].class = X.group
       /\ out' = [out EXCEPT !.reports = @ \cup {X.group}] /\ UNCHANGED <<tests, r, at, done>>
Over == /\ Is("over") /\ (r.how \notin {"modelnone", "nogen", "help"} => out.reports = Groups) /\ UNCHANGED <<tests, r, at, done, out>>
Next == \/ Register \/ Run \/ Begin \/ Go \/ Ran \/ Start \/ Line \/ Completed \/ Summary \/ Report \/ Xml \/ Over
        \/ l = Len(Ev) + 1 /\ Tr.end \in {"done", "part"} /\ PrintT(<<"ACC", ti>>) /\ l' = l + 1 /\ UNCHANGED <<ti, tests, r, at, done, out>>
Spec == Init /\ [][Next]_vars
=============================================================================
