--------------------------- MODULE PropertiesGen ---------------------------
(* Every text of up to Most pieces; what is read and printed reads the same.  *)
EXTENDS Properties, TLC
CONSTANT Most
VARIABLES t, h
Pieces == <<<<97>>, <<SP>>, <<LF>>, <<CR>>, <<EXCL>>, <<HASH>>, <<COLON>>, <<EQ>>, <<AT>>, <<BS>>, <<OC>>, <<CC>>, <<195, 169>>>>
Names == <<"a", "%20", "%0a", "%0d", "!", "#", ":", "=", "@", "\\", "{", "}", "%c3%a9">>
Init == t = <<>> /\ h = <<>>
Step == Len(h) < Most /\ \E i \in 1 .. Len(Pieces) : t' = t \o Pieces[i] /\ h' = Append(h, i)
RECURSIVE Text(_)
Text(x) == IF x = <<>> THEN "" ELSE Names[Head(x)] \o Text(Tail(x))
Emit == PrintT(<<"SCRIPT", "parse " \o Text(h') \o "|final " \o Text(h')>>)
Spec == Init /\ [][Step]_<<t, h>>
\* Texts whose raw names or values end in a continued line are left out: what follows is part of that line.
Open2(n) == LET x == n[3] \o n[4] IN Len(x) > 0 /\ Break(x[Len(x)])
RoundTrip == LET p == Parse(t) IN (p.r = "ok" /\ \A i \in 1 .. Len(p.nodes) : ~Open2(p.nodes[i])) => LET q == Parse(Printed(p.nodes, 1, 0)) IN
   /\ q.r = "ok" /\ Finals(q.nodes) = Finals(p.nodes)
Depths == LET p == Parse(t) IN \A i \in 1 .. Len(p.nodes) : p.nodes[i][1] <= (IF i = 1 THEN 0 ELSE p.nodes[i - 1][1] + (IF p.nodes[i - 1][2] = "block" THEN 1 ELSE 0))
=============================================================================
