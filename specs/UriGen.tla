------------------------------- MODULE UriGen -------------------------------
(* Every URI of one of the beginnings below and up to Most further characters *)
(* and every path of up to MostParts components.                             *)
EXTENDS Uri, TLC
CONSTANTS Most, MostParts
VARIABLES kind, begin, h
Begins == <<"a:", "a://", "b+2.c-d://u@", "a://h:", "a://u@[::1]", "a://u@h:65", "">>
BeginCodes == <<<<97, 58>>, <<97, 58, 47, 47>>, <<98, 43, 50, 46, 99, 45, 100, 58, 47, 47, 117, 64>>, <<97, 58, 47, 47, 104, 58>>, <<97, 58, 47, 47, 117, 64, 91, 58, 58, 49, 93>>,
                <<97, 58, 47, 47, 117, 64, 104, 58, 54, 53>>, <<>>>>
Names == <<"/", "?", "#", "@", ":", "[", "]", "a", "7">>
Codes == <<47, 63, 35, 64, 58, 91, 93, 97, 55>>
Parts == <<"a", "b.c", ".", "..", "...">>
PartCodes == <<<<97>>, <<98, 46, 99>>, <<46>>, <<46, 46>>, <<46, 46, 46>>>>
Init == h = <<>> /\ kind \in {"uri", "path"} /\ begin \in 1 .. Len(Begins) /\ (kind = "path" => begin <= 4)
Step == /\ Len(h) < (IF kind = "uri" THEN Most ELSE MostParts)
        /\ \E i \in 1 .. Len(IF kind = "uri" THEN Names ELSE Parts) : h' = Append(h, i)
        /\ UNCHANGED <<kind, begin>>
RECURSIVE Text(_)
Text(x) == IF x = <<>> THEN "" ELSE Names[Head(x)] \o Text(Tail(x))
RECURSIVE PathText(_, _)
PathText(x, sep) == IF x = <<>> THEN "" ELSE Parts[Head(x)] \o (IF Len(x) > 1 THEN sep ELSE "") \o PathText(Tail(x), sep)
Line == IF kind' = "uri" THEN "parse " \o Begins[begin'] \o Text(h')
        ELSE "norm " \o (IF begin' \in {2, 4} THEN "/" ELSE "") \o PathText(h', IF begin' = 3 THEN "//" ELSE "/") \o (IF begin' \in {3, 4} THEN "/" ELSE "")
Emit == PrintT(<<"SCRIPT", Line>>)
Spec == Init /\ [][Step]_<<kind, begin, h>>
U == BeginCodes[begin] \o [i \in 1 .. Len(h) |-> Codes[h[i]]]
\* The components recompose to the URI.
Opt(has, sep, s) == IF has THEN <<sep>> \o s ELSE <<>>
RECURSIVE Decimal(_)
Decimal(n) == IF n < 10 THEN <<48 + n>> ELSE Decimal(n \div 10) \o <<48 + (n % 10)>>
Recompose == kind = "uri" => LET p == Parse(U) IN p.r = "ok" =>
   LET front == p.scheme \o <<COLON>> \o (IF p.hasAuthority THEN <<SLASH, SLASH>> ELSE <<>>) \o (IF p.hasUser THEN p.user \o <<AT>> ELSE <<>>) \o p.host
       back == p.path \o Opt(p.hasQuery, QUERY, p.query) \o Opt(p.hasFragment, HASH, p.fragment) IN
   /\ StartsWith(U, front) /\ EndsWith(U, back)
   /\ U = front \o (IF p.hasPort THEN <<COLON>> \o (IF Has(U, 55) THEN SubSeq(U, Len(front) + 2, Len(U) - Len(back)) ELSE Decimal(p.port)) ELSE <<>>) \o back
   /\ ~Has(p.path, QUERY) /\ ~Has(p.path, HASH) /\ ~Has(p.query, HASH) /\ ~Has(p.host, SLASH) /\ ~Has(p.user, AT)
   /\ (p.hasAuthority => p.path = <<>> \/ p.path[1] = SLASH)
   /\ p.port \in 0 .. 65535 /\ (p.hasPort => p.host # <<>>)
\* Normalising is idempotent, and leaves no dots but leading ones.
P == (IF begin \in {2, 4} THEN <<SLASH>> ELSE <<>>) \o Join([i \in 1 .. Len(h) |-> PartCodes[h[i]]])
NormalSound == kind = "path" => LET n == Normal(P) IN
   /\ Normal(n) = n
   /\ \A i, j \in 1 .. Len(Split(n)) : Split(n)[i] # <<DOT>> /\ (i < j /\ Split(n)[j] = <<DOT, DOT>> => Split(n)[i] = <<DOT, DOT>>)
   /\ P # <<>> => Normal(P \o <<SLASH>>) = n
   /\ P # <<>> => Normal(P \o <<SLASH, 97>>) = (IF n = <<>> \/ n = <<SLASH>> THEN n \o <<97>> ELSE n \o <<SLASH, 97>>)
=============================================================================
