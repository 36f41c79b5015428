---------------------------- MODULE UrlDataTrace ----------------------------
EXTENDS UrlData, Json, IOUtils, TLC
Traces == ndJsonDeserialize(IOEnv.VT_TRACES)
VARIABLES ti, l
Tr == Traces[ti]
Ev == Tr.ev
X == Ev[l]
Init == ti \in 1 .. Len(Traces) /\ l = 1
Is(o) == l <= Len(Ev) /\ X.op = o /\ l' = l + 1 /\ UNCHANGED ti
Bad == [is |-> "NetworkException", v |-> <<>>]
\* Every form of the call gives the same answer.
Decode == /\ Is("decode")
          /\ \A i \in 1 .. Len(X.out) : X.out[i] = X.out[1]
          /\ IF X.throws /\ Wrong(X.s, X.check) THEN X.out[1] = Bad
             ELSE X.out[1].is = "ok" /\ X.out[1].v \in Decodings(X.s, X.check)
Refused(o) == o.is = "NetworkException"
Splits == /\ Is("split")
          /\ LET ps == Params(X.s) IN
             IF \E i \in 1 .. Len(ps) : Broken(ps[i]) THEN Refused(X.views) /\ Refused(X.out)
             ELSE IF \A i \in 1 .. Len(ps) : Plain(ps[i]) THEN
                  LET kv == [i \in 1 .. Len(ps) |-> <<KeyOf(ps[i]), ValueOf(ps[i])>>] IN
                  /\ X.views.is = "ok" /\ Says(X.views.m, kv)
                  /\ IF X.throws /\ (\E i \in 1 .. Len(kv) : Wrong(kv[i][1], X.check) \/ Wrong(kv[i][2], X.check))
                     \* Of parameters with one key, one is decoded.
                     THEN Refused(X.out) \/ (\E i, j \in 1 .. Len(kv) : i # j /\ kv[i][1] = kv[j][1])
                     ELSE /\ X.out.is = "ok"
                          /\ (\A i \in 1 .. Len(kv) : Strays(kv[i][1]) = {} /\ Strays(kv[i][2]) = {})
                             => Says(X.out.m, [i \in 1 .. Len(kv) |-> [k \in 1 .. 2 |-> CHOOSE t \in Decodings(kv[i][k], X.check) : TRUE]])
             ELSE /\ X.views.is \in {"ok", "NetworkException"} /\ X.out.is \in {"ok", "NetworkException"}
\* What is registered for extensions that every server knows.
Known == [html |-> "text/html", htm |-> "text/html", css |-> "text/css", csv |-> "text/csv", json |-> "application/json", txt |-> "text/plain",
          xml |-> "text/xml", png |-> "image/png", jpg |-> "image/jpeg", jpeg |-> "image/jpeg", gif |-> "image/gif", svg |-> "image/svg+xml",
          pdf |-> "application/pdf", zip |-> "application/zip", mp4 |-> "video/mp4", mp3 |-> "audio/mpeg", gz |-> "application/x-gzip"]
Lookup == /\ Is("media") /\ X.out = MediaType(X.t, X.p)
          /\ X.name \in DOMAIN Known => X.type = Known[X.name]
Next ==
   \/ Decode
   \/ Splits
   \/ Lookup
   \/ l = Len(Ev) + 1 /\ Tr.end \in {"done", "part"} /\ PrintT(<<"ACC", ti>>) /\ l' = l + 1 /\ UNCHANGED ti
Spec == Init /\ [][Next]_<<ti, l>>
=============================================================================
