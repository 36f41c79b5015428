------------------------------ MODULE FilesGen ------------------------------
(* Every change from every state of a small file system, with handles that    *)
(* were made before anything existed.                                         *)
EXTENDS Files
VARIABLES s, h
Paths == <<<<"a">>, <<"d">>, <<"d", "b">>, <<"d", "e">>, <<"d", "e", "c">>>>
File(x) == [kind |-> "file", c |-> x]
Init == s = <<>> /\ h = ""
Do(op, t) == s' = t /\ h' = h \o "|" \o op
Next == \E i \in 1 .. Len(Paths) : LET p == Paths[i] n == ToString(i) IN
   \/ Do("mk " \o n, IF CanMake(s, p) THEN MakeDirs(s, p) ELSE s)
   \/ Do("rm " \o n, IF p \in DOMAIN s /\ Below(s, p) = {} THEN Remove(s, p) ELSE s)
   \/ \E x \in {"x104,105", "x"} : Do("write " \o n \o (IF x = "x" THEN " text " ELSE " ubytes ") \o x \o " 1 close", IF CanWrite(s, p) THEN Put(s, p, File(x)) ELSE s)
   \/ \E j \in 1 .. Len(Paths) : IsFile(s, p) /\ CanWrite(s, Paths[j]) /\ ~Exists(s, Paths[j]) /\ Do("cp " \o n \o " " \o ToString(j), Put(s, Paths[j], s[p]))
Emit == PrintT(<<"SCRIPT", "file 0 string  .|file 1 string  a|file 2 pair d |file 3 div d b|file 4 sub d e|file 5 child d/e c" \o h' \o
   "|stat 1|stat 2|stat 3|stat 4|stat 5|iter 2 flat|iter 2 udeep|iter 4 uflat|iter 4 deep|iter 5 flat|read 1 string 1 |read 3 bytes 7 |read 5 utext 1 |read 5 vector 1 |lines 3|lines 5">>)
Spec == Init /\ [][Next]_<<s, h>>
View == s
Sound == WellFormed(s)
=============================================================================
