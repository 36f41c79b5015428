-------------------------- MODULE CommandLineTrace --------------------------
EXTENDS CommandLine, Json, TLC, IOUtils
Traces == ndJsonDeserialize(IOEnv.VT_TRACES)
VARIABLES ti, l, c, p
Tr == Traces[ti]
Ev == Tr.ev
X == Ev[l]
None == [known |-> TRUE, vals |-> {}, finals |-> <<>>]
Init == ti \in 1 .. Len(Traces) /\ l = 1 /\ c = [style |-> "detect", final |-> "no", options |-> {}, switches |-> {}] /\ p = None
Is(o) == l <= Len(Ev) /\ X.op = o /\ l' = l + 1 /\ UNCHANGED ti
New == Is("new") /\ c' = [style |-> X.style, final |-> "no", options |-> {}, switches |-> {}] /\ p' = None
Sw(old, names, k) == {s \in old : s[1] \notin names} \cup {<<n, k>> : n \in names}
Opt == /\ Is("opt") /\ UNCHANGED p
       /\ c' = [c EXCEPT !.options = {o \in @ : o.key # X.key} \cup {[key |-> X.key, short |-> X.short, long |-> X.long, value |-> X.value, help |-> X.help, doc |-> X.doc]},
                         !.switches = Sw(@, {X.short} \cup (IF X.one THEN {} ELSE {X.long}), X.key)]
FinalMode == Is("final") /\ c' = [c EXCEPT !.final = X.mode] /\ UNCHANGED p
Args == SubSeq(X.args, IF X.ignore THEN 2 ELSE 1, Len(X.args))
DoParse == /\ Is("parse") /\ UNCHANGED c
           /\ LET q == Parse(c, Args) IN
              IF "open" \in q.r THEN X.res \in {"ok", "OptionNotFoundException", "MissingOptionValueException", "MissingFinalValueException", "IllegalArgumentException"}
                                     /\ p' = [None EXCEPT !.known = FALSE]
              ELSE /\ X.res \in q.r
                   /\ p' = [known |-> X.res = "ok", vals |-> q.vals, finals |-> q.finals]
Seen == /\ Is("seen") /\ UNCHANGED <<c, p>>
        /\ p.known => /\ {<<X.vals[i][1], X.vals[i][2]>> : i \in 1 .. Len(X.vals)} = p.vals
                      /\ X.finals = p.finals
                      /\ X.missing = "OptionNotFoundException"
                      /\ \A i \in 1 .. Len(X.dflt) : X.dflt[i] = (IF \E v \in p.vals : v[1] = i THEN (CHOOSE v \in p.vals : v[1] = i)[2] ELSE <<100>>)
Has(k) == \E v \in p.vals : v[1] = k
Val(k) == (CHOOSE v \in p.vals : v[1] = k)[2]
Num1 == /\ Is("num") /\ UNCHANGED <<c, p>>
        /\ p.known =>
           IF ~Has(X.key) THEN (IF X.default THEN X.res = "ok" /\ X.s = <<55>> ELSE X.res = "OptionNotFoundException")
           ELSE LET v == Val(X.key) IN
                IF Integer(v) /\ InRange(X.kind, v) THEN X.res = "ok" /\ X.s = Canonical(v)
                ELSE X.res = "OptionValueException"
Float(has, v) == IF ~has THEN (IF X.default THEN X.res = "ok" /\ X.t = 7500 ELSE X.res = "OptionNotFoundException")
                 ELSE IF Plain(v) THEN X.res = "ok" /\ X.t = Thousandths(v)
                 ELSE IF NoNumber(v) THEN X.res = "OptionValueException" ELSE X.res \in {"ok", "OptionValueException"}
Flt == /\ Is("flt") /\ UNCHANGED <<c, p>>
       /\ p.known => Float(Has(X.key), IF Has(X.key) THEN Val(X.key) ELSE <<>>)
FinalFlt == /\ Is("ffl") /\ UNCHANGED <<c, p>>
            /\ p.known => Float(X.key < Len(p.finals), IF X.key < Len(p.finals) THEN p.finals[X.key + 1] ELSE <<>>)
FinalStr == /\ Is("fin") /\ UNCHANGED <<c, p>>
            /\ p.known => IF X.key < Len(p.finals) THEN X.res = "ok" /\ X.s = p.finals[X.key + 1] /\ X.d = X.s
                          ELSE X.res = "OptionNotFoundException" /\ X.d = <<100>>
HelpText == Is("helptext") /\ UNCHANGED <<c, p>> /\ X.s = Help(c, X.indent, X.total, X.style)
Copy == Is("copy") /\ UNCHANGED <<c, p>>
Next == \/ New \/ Opt \/ FinalMode \/ DoParse \/ Seen \/ Num1 \/ Flt \/ FinalFlt \/ FinalStr \/ HelpText \/ Copy
        \/ l = Len(Ev) + 1 /\ Tr.end \in {"done", "part"} /\ PrintT(<<"ACC", ti>>) /\ l' = l + 1 /\ UNCHANGED <<ti, c, p>>
Spec == Init /\ [][Next]_<<ti, l, c, p>>
=============================================================================
