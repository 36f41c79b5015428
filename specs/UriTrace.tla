------------------------------ MODULE UriTrace ------------------------------
EXTENDS Uri, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.VT_TRACES)
VARIABLES ti, l
Tr == Traces[ti]
Ev == Tr.ev
X == Ev[l]
Init == ti \in 1 .. Len(Traces) /\ l = 1
Is(o) == l <= Len(Ev) /\ X.op = o /\ l' = l + 1 /\ UNCHANGED ti
Components(p) ==
   /\ X.res = "ok" /\ X.acc = "ok" /\ X.text = X.u /\ X.same /\ X.other = (X.u = <<122, 58>>)
   /\ X.scheme = p.scheme /\ X.user = p.user /\ X.host = p.host /\ X.port = p.port /\ X.hasPort = p.hasPort
   /\ X.path = p.path /\ X.query = p.query /\ X.fragment = p.fragment /\ X.pqf = p.rest
   \* Whether there is something empty is not said.
   /\ (p.user # <<>> => X.hasUser) /\ (~p.hasUser => ~X.hasUser)
   /\ (p.host # <<>> => X.hasHost /\ X.hasAuthority) /\ (~p.hasAuthority => ~X.hasHost /\ ~X.hasAuthority)
   /\ (p.query # <<>> => X.hasQuery) /\ (~p.hasQuery => ~X.hasQuery)
   /\ (p.fragment # <<>> => X.hasFragment) /\ (~p.hasFragment => ~X.hasFragment)
DoParse == /\ Is("parse")
           /\ LET p == Parse(X.u) IN
              CASE p.r = "invalid" -> X.res = "InvalidUriException"
                [] p.r = "open" -> X.res \in {"ok", "InvalidUriException"}
                [] OTHER -> Components(p)
\* URIs of a given length, the path of which is padded.
Long == /\ Is("long")
        /\ IF X.n > 32767 THEN X.res = "InvalidUriException" ELSE X.res = "ok"
DoNorm == /\ Is("norm") /\ X.res = "ok"
          /\ PastRoot(X.p) \/ X.out = Normal(X.p)
SameFile(a, b) == a = b \/ (Normal(a) = Normal(b) /\ StartsWith(a, <<SLASH>>) = StartsWith(b, <<SLASH>>))
Match(kind, raw, want) == /\ kind = want.kind
                          /\ IF want.kind \in {"file", "zip"} THEN SameFile(raw, want.raw) ELSE raw = want.raw
FromText == /\ Is("text")
            /\ Match(X.kind, X.raw, OfText(X.t)) /\ X.skind = X.kind /\ X.sraw = X.raw /\ X.ckind = X.kind /\ X.craw = X.raw
            /\ X.bkind = X.kind /\ X.braw = X.raw
DoAppend == /\ Is("append")
            /\ CASE X.base \in {"http", "https"} ->
                    IF Parse(X.t).r = "ok" THEN X.kind = X.base /\ X.raw \in UrlAppend(X.t, X.c)
                    ELSE IF Parse(X.t).r = "invalid" THEN X.kind = "InvalidUriException" ELSE TRUE
                 [] X.base = "file" -> X.kind = "file" /\ SameFile(X.raw, X.t \o <<SLASH>> \o X.c)
                 [] OTHER -> X.kind = "UnsupportedOperationException"
ZipBase == IF Has(X.t, SLASH) THEN Base(X.t) ELSE <<>>
DoResolve == /\ Is("resolve")
             /\ LET r == Trim(X.ref) IN
                CASE X.base \in {"http", "https"} ->
                     IF HasScheme(r) \/ Parse(X.t).r = "ok" THEN LET w == UrlResolve(X.base, X.t, X.ref) IN Match(X.kind, X.raw, w)
                     ELSE IF Parse(X.t).r = "invalid" THEN X.kind = "InvalidUriException" ELSE TRUE
                  [] X.base = "file" -> Match(X.kind, X.raw, FileResolve(X.t, X.dir, X.ref)) \/ PastRoot(FileResolve(X.t, X.dir, X.ref).raw)
                  [] X.base = "string" -> IF HasScheme(r) THEN Match(X.kind, X.raw, OfText(r)) ELSE X.kind = "IllegalArgumentException"
                  [] OTHER -> IF HasScheme(r) THEN Match(X.kind, X.raw, OfText(r))
                              ELSE Match(X.kind, X.raw, [kind |-> "zip", raw |-> IF StartsWith(r, <<SLASH>>) THEN r ELSE ZipBase \o r]) \/ r = <<>>
\* References resolved against the entries of archives.
Entry == /\ Is("entry")
         /\ LET r == Trim(X.ref)
                b == X.names[1]
                n == IF StartsWith(r, <<SLASH>>) THEN From(r, 2) ELSE Normal((IF Has(b, SLASH) THEN Base(b) ELSE <<>>) \o r) \o (IF EndsWith(r, <<SLASH>>) THEN <<SLASH>> ELSE <<>>) IN
            IF HasScheme(r) THEN Match(X.kind, X.raw, OfText(r))
            ELSE IF \E i \in 1 .. Len(X.names) : X.names[i] = n THEN X.kind = "string" /\ X.raw = n
            ELSE X.kind # "string" \/ X.raw # b
Equal == /\ Is("eq")
         /\ (X.ak = X.bk /\ X.a = X.b => X.eq /\ X.hash)
         /\ (X.ak # X.bk /\ {X.ak, X.bk} # {"file", "zip"} => ~X.eq)
         /\ (X.ak = X.bk /\ X.ak \in {"http", "https", "string"} /\ X.a # X.b => ~X.eq)
         /\ (X.ak = X.bk /\ X.ak \in {"file", "zip"} /\ ~SameFile(X.a, X.b) => ~X.eq)
         /\ X.clone
Next == \/ DoParse \/ Long \/ DoNorm \/ FromText \/ DoAppend \/ DoResolve \/ Entry \/ Equal
        \/ l = Len(Ev) + 1 /\ Tr.end \in {"done", "part"} /\ PrintT(<<"ACC", ti>>) /\ l' = l + 1 /\ UNCHANGED ti
Spec == Init /\ [][Next]_<<ti, l>>
=============================================================================
