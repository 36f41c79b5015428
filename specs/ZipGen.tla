------------------------------- MODULE ZipGen -------------------------------
(* Every sequence of up to Most changes to an archive in a transaction, which *)
(* is committed and read.                                                     *)
EXTENDS Zip, TLC
CONSTANT Most
VARIABLES es, h, file
N(s) == CASE s = "a" -> <<97>> [] s = "b" -> <<98>> [] s = "d/" -> <<100, 47>> [] s = "d/x" -> <<100, 47, 120>> [] s = "d/e/" -> <<100, 47, 101, 47>>
          [] s = "d/e/y" -> <<100, 47, 101, 47, 121>> [] s = "c/" -> <<99, 47>> [] s = "c/e/" -> <<99, 47, 101, 47>> [] s = "dd" -> <<100, 100>>
Start == <<Entry(N("a"), "t7", 7, <<>>, <<>>), Directory(N("d/")), Entry(N("d/x"), "t3000", 3000, <<>>, <<>>), Entry(N("dd"), "b9", 9, <<>>, <<>>)>>
Init == es = Start /\ file = Start /\ h = <<>>
Do(text, e) == h' = Append(h, text) /\ es' = e /\ UNCHANGED file
Change == \/ \E n \in {"a", "d/x", "d/e/y"} : Do("put " \o (IF n = "a" THEN "string " ELSE IF n = "d/x" THEN "bytes " ELSE "file ") \o n \o " t" \o ToString(20 + Len(h)), PutEntry(es, N(n), "t" \o ToString(20 + Len(h)), 20 + Len(h)))
          \/ \E n \in {"d/e/", "c/e/"} : Do("putdir " \o n, PutDirectory(es, N(n)))
          \/ \E n \in {"a", "d/x", "d/", "d/e/"} : Under(es, N(n)) # {} /\ Do("delete " \o n, Delete(es, N(n)))
          \/ \E p \in {<<"a", "b">>, <<"a", "d/x">>, <<"d/x", "a">>, <<"d/", "c/">>, <<"c/", "d/">>, <<"d/", "d/e/">>, <<"d/e/", "d/">>} :
                Under(es, N(p[1])) # {} /\ IF Conflict(es, N(p[1]), N(p[2])) THEN ~IsDir(N(p[1])) /\ Do("rename " \o p[1] \o " " \o p[2], es) ELSE Do("rename " \o p[1] \o " " \o p[2], Rename(es, N(p[1]), N(p[2])))
          \/ Do("close z|disk f|open z f no", file)
          \/ h # <<>> /\ h' = Append(h, "commit|disk f|open z f no") /\ file' = es /\ UNCHANGED es
Step == Len(h) < Most /\ Change
RECURSIVE Text(_)
Text(x) == IF x = <<>> THEN "" ELSE "|" \o Head(x) \o Text(Tail(x))
Emit == PrintT(<<"SCRIPT", "fixture f c%21  a:t7:x:store d/::: d/x:t3000:: dd:b9::|open z f no" \o Text(h') \o "|has z a|has z d/x|commit|disk f|open u f verify|state u|has u a|read u a|read u d/x|read u c/x|readi u 0|readi u 1|readi u 2|close u|iter uri f ">>)
Spec == Init /\ [][Step]_<<es, h, file>>
Sound == Distinct(es) /\ Distinct(file)
=============================================================================
