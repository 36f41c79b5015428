-------------------------------- MODULE Uri --------------------------------
(* URIs as sequences of character codes: the decomposition of a URI into its  *)
(* components, the normalisation of paths, the appending of path components   *)
(* to URLs, the resolution of references against a URI and the creation of    *)
(* URIs from strings.                                                         *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC
COLON == 58  SLASH == 47  QUERY == 63  HASH == 35  AT == 64  OPEN == 91  CLOSE == 93  DOT == 46
Alpha(c) == (c >= 65 /\ c <= 90) \/ (c >= 97 /\ c <= 122)
Digit(c) == c >= 48 /\ c <= 57
From(s, i) == SubSeq(s, i, Len(s))
Until(s, i) == SubSeq(s, 1, i - 1)
\* The first place of a character of the set, or one past the end.
First(s, set) == LET at == {i \in 1 .. Len(s) : s[i] \in set} IN IF at = {} THEN Len(s) + 1 ELSE CHOOSE i \in at : \A j \in at : i <= j
LastAt(s, c) == LET at == {i \in 1 .. Len(s) : s[i] = c} IN IF at = {} THEN 0 ELSE CHOOSE i \in at : \A j \in at : i >= j
Has(s, c) == \E i \in 1 .. Len(s) : s[i] = c
StartsWith(s, p) == Len(s) >= Len(p) /\ SubSeq(s, 1, Len(p)) = p
EndsWith(s, p) == Len(s) >= Len(p) /\ SubSeq(s, Len(s) - Len(p) + 1, Len(s)) = p

-----------------------------------------------------------------------------
(* Components.                                                               *)
RECURSIVE Number(_)
Number(s) == IF s = <<>> THEN 0 ELSE LET n == Number(SubSeq(s, 1, Len(s) - 1)) IN IF n > 65535 THEN n ELSE n * 10 + s[Len(s)] - 48
Scheme(u) == Until(u, First(u, {COLON}))
GoodScheme(s) == s # <<>> /\ Alpha(s[1]) /\ \A i \in 1 .. Len(s) : Alpha(s[i]) \/ Digit(s[i]) \/ s[i] \in {43, 45, 46}
Invalid == [r |-> "invalid"]
\* Not a URI, but what becomes of it is not said.
Open == [r |-> "open"]
Tail3(rest) == LET p == First(rest, {QUERY, HASH})
                   path == Until(rest, p)
                   q == IF p <= Len(rest) /\ rest[p] = QUERY THEN From(rest, p + 1) ELSE <<>>
                   h == First(rest, {HASH}) IN
               [path |-> path,
                query |-> Until(q, First(q, {HASH})), hasQuery |-> p <= Len(rest) /\ rest[p] = QUERY,
                fragment |-> From(rest, h + 1), hasFragment |-> h <= Len(rest)]
Good(scheme, hasAuthority, user, hasUser, host, port, hasPort, rest) ==
   [r |-> "ok", scheme |-> scheme, hasAuthority |-> hasAuthority, user |-> user, hasUser |-> hasUser, host |-> host, port |-> port, hasPort |-> hasPort, rest |-> rest] @@ Tail3(rest)
Authority(scheme, a, rest) ==
   LET at == First(a, {AT})
       hasUser == at <= Len(a)
       user == IF hasUser THEN Until(a, at) ELSE <<>>
       hp == IF hasUser THEN From(a, at + 1) ELSE a
       bracket == hp # <<>> /\ hp[1] = OPEN
       close == First(hp, {CLOSE})
       host == IF bracket THEN SubSeq(hp, 1, close) ELSE Until(hp, First(hp, {COLON}))
       more == From(hp, Len(host) + 1)
       hasPort == more # <<>> /\ more[1] = COLON
       port == IF hasPort THEN From(more, 2) ELSE <<>> IN
   IF hasUser /\ Has(user, COLON) /\ ~Has(user, OPEN) THEN Invalid
   ELSE IF Has(user, OPEN) \/ Has(user, CLOSE) \/ Has(hp, AT) THEN Open
   ELSE IF bracket /\ close > Len(hp) THEN (IF Has(rest, CLOSE) THEN Open ELSE Invalid)
   ELSE IF bracket /\ more # <<>> /\ ~hasPort THEN Open
   ELSE IF ~bracket /\ (Has(host, OPEN) \/ Has(host, CLOSE)) THEN Open
   ELSE IF (hasUser \/ hasPort) /\ host = <<>> THEN Invalid
   ELSE IF hasPort /\ port = <<>> THEN Open
   ELSE IF \E i \in 1 .. Len(port) : ~Digit(port[i]) THEN Invalid
   ELSE IF Number(port) > 65535 THEN Invalid
   ELSE Good(scheme, TRUE, user, hasUser, host, Number(port), hasPort, rest)
Parse(u) ==
   LET s == Scheme(u)
       b == From(u, Len(s) + 2) IN
   IF Len(u) > 32767 \/ ~GoodScheme(s) \/ Len(s) = Len(u) THEN Invalid
   ELSE IF StartsWith(b, <<SLASH, SLASH>>)
        THEN LET c == From(b, 3)
                 n == First(c, {SLASH, QUERY, HASH}) IN Authority(s, Until(c, n), From(c, n))
        ELSE Good(s, FALSE, <<>>, FALSE, <<>>, 0, FALSE, b)

-----------------------------------------------------------------------------
(* Paths.                                                                    *)
RECURSIVE Split(_)
Split(p) == LET n == First(p, {SLASH}) IN IF p = <<>> THEN <<>> ELSE (IF n = 1 THEN <<>> ELSE <<Until(p, n)>>) \o Split(From(p, n + 1))
RECURSIVE Join(_)
Join(cs) == IF cs = <<>> THEN <<>> ELSE IF Len(cs) = 1 THEN cs[1] ELSE cs[1] \o <<SLASH>> \o Join(Tail(cs))
RECURSIVE Squash(_, _)
Squash(done, cs) == IF cs = <<>> THEN done
                    ELSE IF cs[1] = <<DOT>> THEN Squash(done, Tail(cs))
                    ELSE IF cs[1] = <<DOT, DOT>> /\ done # <<>> /\ done[Len(done)] # <<DOT, DOT>> THEN Squash(SubSeq(done, 1, Len(done) - 1), Tail(cs))
                    ELSE Squash(Append(done, cs[1]), Tail(cs))
Normal(p) == (IF StartsWith(p, <<SLASH>>) THEN <<SLASH>> ELSE <<>>) \o Join(Squash(<<>>, Split(p)))
\* What goes back past the root is not said.
PastRoot(p) == StartsWith(p, <<SLASH>>) /\ LET q == Squash(<<>>, Split(p)) IN q # <<>> /\ q[1] = <<DOT, DOT>>
Dotted(p) == \E i \in 1 .. Len(Split(p)) : Split(p)[i] \in {<<DOT>>, <<DOT, DOT>>}

\* The directory of a path: up to its last slash.
Base(p) == SubSeq(p, 1, LastAt(p, SLASH))
Spaces == {32, 9, 10, 13}
RECURSIVE Trim(_)
Trim(s) == IF s # <<>> /\ s[1] \in Spaces THEN Trim(Tail(s)) ELSE IF s # <<>> /\ s[Len(s)] \in Spaces THEN Trim(SubSeq(s, 1, Len(s) - 1)) ELSE s
HasScheme(s) == LET n == First(s, {COLON}) IN n <= Len(s) /\ GoodScheme(Until(s, n))

-----------------------------------------------------------------------------
(* URLs and files from strings; kind and text of the URI.                    *)
HTTP == <<104, 116, 116, 112>>  HTTPS == <<104, 116, 116, 112, 115>>  FILE == <<102, 105, 108, 101>>  ZIP == <<46, 122, 105, 112>>
OfFile(p) == [kind |-> IF EndsWith(p, ZIP) THEN "zip" ELSE "file", raw |-> p]
OfText(s) == LET sch == Scheme(s)
                 b == From(s, Len(sch) + 2) IN
             IF sch = HTTP /\ Has(s, COLON) THEN [kind |-> "http", raw |-> s]
             ELSE IF sch = HTTPS /\ Has(s, COLON) THEN [kind |-> "https", raw |-> s]
             ELSE IF sch = FILE /\ Has(s, COLON) THEN OfFile(IF StartsWith(b, <<SLASH, SLASH>>) THEN From(b, 3) ELSE b)
             ELSE OfFile(s)
\* The scheme and the authority of a URL.
UrlFront(u) == SubSeq(u, 1, Len(u) - Len(Parse(u).rest))
\* A path component appended to a URL.
UrlAppend(u, c) == LET p == Parse(u) IN
   \* An empty query or fragment may be left out.
   {UrlFront(u) \o p.path \o (IF EndsWith(p.path, <<SLASH>>) THEN <<>> ELSE <<SLASH>>) \o c \o q \o f :
       q \in {<<QUERY>> \o p.query : x \in {y \in {1} : p.hasQuery}} \cup {<<>> : y \in {y \in {1} : p.query = <<>>}},
       f \in {<<HASH>> \o p.fragment : x \in {y \in {1} : p.hasFragment}} \cup {<<>> : y \in {y \in {1} : p.fragment = <<>>}}}
\* A reference resolved against a URL.
UrlResolve(kind, u, ref) ==
   LET r == Trim(ref)
       p == Parse(u) IN
   IF HasScheme(r) THEN OfText(r)
   ELSE [kind |-> kind, raw |-> UrlFront(u) \o (IF StartsWith(r, <<SLASH>>) THEN r ELSE (IF Has(p.path, SLASH) THEN Base(p.path) ELSE <<SLASH>>) \o r)]
\* A reference resolved against a file: files that are directories are the base, otherwise the parent is.
FileResolve(base, isDirectory, ref) ==
   LET r == Trim(ref)
       isFile == HasScheme(r) /\ Scheme(r) = FILE
       p == IF isFile THEN From(r, 6) ELSE r
       b == IF isDirectory THEN base \o <<SLASH>> ELSE Base(base) IN
   IF HasScheme(r) /\ ~isFile THEN OfText(r)
   ELSE IF p = <<>> \/ (isFile /\ p = <<SLASH, SLASH>>) THEN [kind |-> "file", raw |-> Normal(b)]
   ELSE IF StartsWith(p, <<SLASH>>) THEN
      (IF isFile /\ ~StartsWith(p, <<SLASH, SLASH, SLASH>>) THEN [kind |-> "IllegalArgumentException", raw |-> <<>>]
       ELSE [kind |-> "file", raw |-> Normal(p)])
   ELSE [kind |-> "file", raw |-> Normal(b \o p)]
=============================================================================
