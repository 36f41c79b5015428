-------------------------- MODULE PropertiesTrace --------------------------
EXTENDS Properties, Json, TLC, IOUtils
Traces == ndJsonDeserialize(IOEnv.VT_TRACES)
VARIABLES ti, l
Tr == Traces[ti]
Ev == Tr.ev
X == Ev[l]
Init == ti \in 1 .. Len(Traces) /\ l = 1
Is(o) == l <= Len(Ev) /\ X.op = o /\ l' = l + 1 /\ UNCHANGED ti
Again(q) == /\ q.r = "ok" => X.res2 = "ok" /\ X.again = q.nodes
            /\ q.r = "error" => X.res2 = "SyntaxErrorException"
Parsed == LET p == Parse(X.s) IN
   /\ p.r = "ok" => X.res = "ok" /\ X.nodes = p.nodes
   /\ p.r = "error" => X.res = "SyntaxErrorException"
   /\ p.r = "any" => X.res \in {"ok", "SyntaxErrorException"}
   \* What was read and printed is read again, as what the printed text means
   \* (the same, unless a continued last line joins with the printed break).
   /\ (X.res = "ok" /\ p.r = "ok") => X.print = Printed(p.nodes, 1, 0) /\ X.moved = X.nodes /\ Again(Parse(X.print))
Next == \/ Is("parse") /\ Parsed
        \/ Is("final") /\ X.r = Final(X.s, 1)
        \/ l = Len(Ev) + 1 /\ Tr.end \in {"done", "part"} /\ PrintT(<<"ACC", ti>>) /\ l' = l + 1 /\ UNCHANGED ti
Spec == Init /\ [][Next]_<<ti, l>>
=============================================================================
