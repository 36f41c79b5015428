--------------------------- MODULE PrintingTrace ---------------------------
EXTENDS Printing, Json, IOUtils, TLC
Traces == ndJsonDeserialize(IOEnv.VT_TRACES)
VARIABLES ti, l
Tr == Traces[ti]
Ev == Tr.ev
X == Ev[l]
Init == ti \in 1 .. Len(Traces) /\ l = 1
Is(o) == l <= Len(Ev) /\ X.op = o /\ l' = l + 1 /\ UNCHANGED ti
Good(o) == Is(o) /\ X.is = "ok"
Fixed == Good("fixed") /\ IsFixed(X.out, X.v, X.dp)
Scientific == Good("sci") /\ IsScientific(X.out, X.v, X.dp)
Metric == Good("metric") /\ IsPrefixed(X.out, X.v, X.dp, 1000, <<>>)
Binary == Good("binary") /\ IsPrefixed(X.out, X.v, X.dp, 1024, <<>>)
Bytes == Good("bytes") /\ IsPrefixed(X.out, X.v, X.dp, 1024, <<66>>)
Lasting == Good("duration") /\ IsDuration(X.out, X.v, X.dp)
HexBytes == Good("hex") /\ IsHex(X.out, X.s, X.line, X.group)
Date == /\ Is("date")
        /\ LET t == DateText(X.days) \o <<BLANK>> \o Clock(X.secs) IN
           (\A i \in 1 .. Len(X.out) : X.out[i] = t) /\ X.milli = t \o <<DOT, 48, 48, 55>>
RECURSIVE Shown(_)
Shown(n) == IF n < 10 THEN <<48 + n>> ELSE Shown(n \div 10) \o <<48 + (n % 10)>>
Time == /\ Is("clock")
        /\ \A i \in 1 .. Len(X.out) : X.out[i] = Clock(X.secs)
        /\ X.back = X.secs /\ X.milliback = 0 /\ X.shown = Shown(X.secs) \o <<115>>
Next ==
   \/ Fixed
   \/ Scientific
   \/ Metric
   \/ Binary
   \/ Bytes
   \/ Lasting
   \/ HexBytes
   \/ Date
   \/ Time
   \/ l = Len(Ev) + 1 /\ Tr.end \in {"done", "part"} /\ PrintT(<<"ACC", ti>>) /\ l' = l + 1 /\ UNCHANGED ti
Spec == Init /\ [][Next]_<<ti, l>>
=============================================================================
