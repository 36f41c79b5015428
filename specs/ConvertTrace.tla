---------------------------- MODULE ConvertTrace ----------------------------
EXTENDS Convert, Json, IOUtils, TLC
Traces == ndJsonDeserialize(IOEnv.VT_TRACES)
VARIABLES ti, l
Tr == Traces[ti]
Ev == Tr.ev
X == Ev[l]
Init == ti \in 1 .. Len(Traces) /\ l = 1
Is(o) == l <= Len(Ev) /\ X.op = o /\ l' = l + 1 /\ UNCHANGED ti
\* Every function gives the same answer.
Each(rs, v) == \A i \in 1 .. Len(rs) : rs[i] = v
Bad == [is |-> "ConversionException", v |-> <<>>]
\* Whether a plus sign may come first is not said.
Parsed(rs, good, v, s) == \/ Each(rs, IF good THEN [is |-> "ok", v |-> v] ELSE Bad)
                          \/ At(s, 1) = PLUS /\ Each(rs, Bad)
Parse == /\ Is("parse") /\ Parsed(X.out, Good(X.kind, X.s, 10), Value(X.s), X.s)
Base == /\ Is("base") /\ Parsed(<<[is |-> X.is, v |-> X.v]>>, Good(X.kind, X.s, X.base), Value(X.s), X.s)
Show == /\ Is("show") /\ Each(X.out, Value(X.s)) /\ Each(X.back, [is |-> "ok", v |-> Value(X.s)])
Real == /\ Is("real")
        /\ IF Plain(X.s) THEN Parsed(X.out, TRUE, Thousandths(X.s), X.s)
           ELSE (NoNumber(X.s) \/ HugeFor(X.kind, X.s)) => Each(X.out, Bad)
BitsOf == /\ Is("bits") /\ X.is = "ok"
          /\ Each(X.back, X.v)
          /\ \A i \in 1 .. Len(X.out) : X.out[i] = X.out[1]
          /\ Each(X.complex, X.out[1] \o <<32, 43, 32, 106>> \o X.half)
Bool == /\ Is("bool")
        /\ LET w == Lower(X.s) IN Each(X.out, IF w = TRUTH THEN [is |-> "ok", v |-> <<1>>] ELSE IF w = FALSITY THEN [is |-> "ok", v |-> <<0>>] ELSE Bad)
        /\ Each(X.shown[1], TRUTH) /\ Each(X.shown[2], FALSITY)
\* Whether a char takes the code points from 128 to 255 is not said.
First == /\ Is("first")
         /\ Each(X.wide, IF X.s = <<>> THEN Bad ELSE [is |-> "ok", v |-> <<X.s[1]>>])
         /\ IF X.s # <<>> /\ X.s[1] \in 128 .. 255 THEN TRUE ELSE Each(X.narrow, IF X.s = <<>> \/ X.s[1] > 255 THEN Bad ELSE [is |-> "ok", v |-> <<X.s[1]>>])
Text == Is("text") /\ Each(X.out, X.s)
Char == Is("char") /\ Each(X.out, <<X.c>>)
Row == Is("row") /\ Each(X.out, Braces(X.l))
Table == Is("table") /\ Each(X.out, Braces([i \in 1 .. Len(X.l) |-> Braces(X.l[i])]))
Pair == Is("pair") /\ Each(X.out, Braces(<<X.a, X.b>>))
Pack == /\ Is("pack")
        /\ Each(X.two, X.n \o X.s) /\ Each(X.three, X.s \o X.b \o X.n) /\ Each(X.five, X.b \o X.c \o X.s \o X.n \o X.s)
        /\ Each(X.seven, <<60>> \o X.n \o <<62>> \o Braces(<<X.n, X.s>>) \o X.s \o X.b \o <<33>>)
Next ==
   \/ Parse
   \/ Base
   \/ Show
   \/ Real
   \/ BitsOf
   \/ Bool
   \/ First
   \/ Text
   \/ Char
   \/ Row
   \/ Table
   \/ Pair
   \/ Pack
   \/ l = Len(Ev) + 1 /\ Tr.end \in {"done", "part"} /\ PrintT(<<"ACC", ti>>) /\ l' = l + 1 /\ UNCHANGED ti
Spec == Init /\ [][Next]_<<ti, l>>
=============================================================================
