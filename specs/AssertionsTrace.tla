--------------------------- MODULE AssertionsTrace ---------------------------
EXTENDS Assertions, Json, IOUtils, TLC
Traces == ndJsonDeserialize(IOEnv.VT_TRACES)
VARIABLES ti, l
Tr == Traces[ti]
Ev == Tr.ev
X == Ev[l]
Init == ti \in 1 .. Len(Traces) /\ l = 1
Is(o) == l <= Len(Ev) /\ X.op = o /\ l' = l + 1 /\ UNCHANGED ti
FAILURE == "AssertionException"
ASSERTION == <<65, 115, 115, 101, 114, 116, 105, 111, 110>>
DASH == <<32, 45, 32>>
\* Each way of asking: with or without the location, the message, and the rendering.
Prefix(r) == ASSERTION \o DASH \o (IF r.loc = <<>> THEN <<>> ELSE r.loc \o DASH) \o r.msg \o <<NL>>
\* A failure says where (if asked), the message, and then (without rendering: nothing, else what Said holds of); what() has all of it too.
Rest(r) == SubSeq(r.said, Len(Prefix(r)) + 1, Len(r.said))
Failed(r) == r.is = FAILURE /\ Starts(r.said, Prefix(r)) /\ r.what /\ (r.np => Rest(r) = <<>>)
All(pass, Said(_)) == IF pass THEN \A i \in 1 .. Len(X.out) : X.out[i].is = "ok"
                      ELSE /\ \A i \in 1 .. Len(X.out) : Failed(X.out[i])
                           /\ \A s \in {Rest(X.out[i]) : i \in {k \in 1 .. Len(X.out) : ~X.out[k].np}} : Said(s)
Anything(s) == TRUE
Cmp == /\ Is("cmp") /\ All(Matches(X.m, X.kind, X.a, X.e), LAMBDA s : Rendered(s, X.kind, X.a, X.e))
\* Numbers as multiples of a unit.
NearBy == Is("near") /\ All(Near(X.a, X.e, X.d), Anything)
Null == Is("null") /\ All(X.there, Anything)
IsA == Is("isa") /\ All(X.t \in Ancestors(X.d), LAMBDA s : Contains(s, X.names[1]) /\ Contains(s, X.names[2]))
\* how: by type, equal to an instance, compared with an instance, satisfying a predicate (the code is e)
NOTTHROWN == <<110, 111, 116, 32, 116, 104, 114, 111, 119, 110>>
DIFFERENT == <<100, 105, 102, 102, 101, 114, 101, 110, 116>>
Thrown == /\ Is("throws")
          /\ IF X.thrown = "none" THEN All(FALSE, LAMBDA s : Contains(s, NOTTHROWN))
             ELSE IF X.thrown = "int" THEN \A i \in 1 .. Len(X.out) : X.out[i].is # "ok"
             ELSE IF ~(X.type \in Above(X.thrown)) THEN All(FALSE, LAMBDA s : Contains(s, DIFFERENT) /\ Contains(s, What(X.thrown, X.code)))
             ELSE All(X.how = "type" \/ X.code = X.e, LAMBDA s : Contains(s, What(X.thrown, X.code)) /\ (X.how # "pred" => Contains(s, What(X.type, X.e))))
          /\ \A i \in 1 .. Len(X.out) : X.out[i].calls = 1
Fail == Is("fail") /\ \A i \in 1 .. Len(X.out) : X.out[i].is = FAILURE /\ X.out[i].what /\ (Full(X.out[i].msg) => X.out[i].said = Prefix(X.out[i]))
Next ==
   \/ Cmp
   \/ NearBy
   \/ Null
   \/ IsA
   \/ Thrown
   \/ Fail
   \/ l = Len(Ev) + 1 /\ Tr.end \in {"done", "part"} /\ PrintT(<<"ACC", ti>>) /\ l' = l + 1 /\ UNCHANGED ti
Spec == Init /\ [][Next]_<<ti, l>>
=============================================================================
