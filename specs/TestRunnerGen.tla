---------------------------- MODULE TestRunnerGen ----------------------------
(* Every choice of up to Most tests in two groups with every kind of body,    *)
(* and every way of running them that says something about them.              *)
EXTENDS TestRunner, TLC
CONSTANTS Most
VARIABLES h, run
Bodies == <<"P", "F", "E", "O", "I", "C", "A", "K", "X", "Y">>
GroupsOf == <<"alpha", "beta">>
Ways == {<<"model", "WorkerThreads">>, <<"own", "WorkerThreads">>, <<"own", "WorkerProcesses">>, <<"surefire", "ProcessPerTest">>, <<"own", "ProcessPerTest">>, <<"own", "SingleThreaded">>, <<"surefire", "default">>}
Init == h = <<>> /\ run \in Ways \X {1, 2}
Fatal == run[1][2] \in {"WorkerProcesses", "ProcessPerTest"}
Step == Len(h) < Most /\ \E g \in 1 .. 2, b \in 1 .. Len(Bodies) : (Bodies[b] \in Ends => Fatal) /\ h' = Append(h, <<g, b>>) /\ UNCHANGED run
RECURSIVE Text(_, _)
Text(x, n) == IF x = <<>> THEN "" ELSE "|test " \o GroupsOf[Head(x)[1]] \o " t" \o ToString(n) \o " " \o Bodies[Head(x)[2]] \o " 0" \o Text(Tail(x), n + 1)
Emit == PrintT(<<"SCRIPT", "group alpha 15 P P|group beta 15 P P" \o Text(h', 1) \o "|run " \o run[1][1] \o " " \o run[1][2] \o " " \o ToString(run[2])>>)
Spec == Init /\ [][Step]_<<h, run>>
Test(i) == [setup |-> "P", body |-> Bodies[h[i][2]], teardown |-> "P"]
Sound == \A i \in 1 .. Len(h) : /\ (Dies(Test(i)) <=> Bodies[h[i][2]] \in Ends)
                                /\ (Dies(Test(i)) => Result(Test(i)) = "error")
                                /\ ("end" \in {Happens(Test(i))[k] : k \in 1 .. Len(Happens(Test(i)))} <=> ~Dies(Test(i)))
=============================================================================
