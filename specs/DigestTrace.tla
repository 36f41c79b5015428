---------------------------- MODULE DigestTrace ----------------------------
EXTENDS Digest, Json, IOUtils, TLC
Traces == ndJsonDeserialize(IOEnv.VT_TRACES)
VARIABLES ti, l, kind, sofar
vars == <<ti, l, kind, sofar>>
Tr == Traces[ti]
Ev == Tr.ev
X == Ev[l]
Init == ti \in 1 .. Len(Traces) /\ l = 1 /\ kind = "" /\ sofar = <<>>
Is(o) == l <= Len(Ev) /\ X.op = o /\ l' = l + 1 /\ UNCHANGED ti
Same == UNCHANGED <<kind, sofar>>
\* Every form of the contents has the digest.
Whole == /\ Is("whole") /\ Same
         /\ LET h == Hex(Digest(X.kind, X.s)) IN \A i \in 1 .. Len(X.out) : X.out[i] = [is |-> "ok", v |-> h]
\* Contents that are too long for this: all forms have one digest.
Long == /\ Is("long") /\ Same
        /\ \A i \in 1 .. Len(X.out) : X.out[i].is = "ok" /\ X.out[i].v = X.out[1].v
Missing == /\ Is("nofile") /\ Same /\ X.is = X.expected
New == Is("new") /\ kind' = X.kind /\ sofar' = <<>>
Added == Is("add") /\ sofar' = sofar \o X.s /\ UNCHANGED kind
Asked == /\ Is("get") /\ Same
         /\ LET d == Digest(kind, sofar) IN X.text = Hex(d) /\ X.bytes = d
Reset == Is("reset") /\ sofar' = <<>> /\ UNCHANGED kind
\* A call has nothing to do with what was added.
Call == /\ Is("call") /\ UNCHANGED kind /\ sofar' = X.s
        /\ LET h == Hex(Digest(kind, X.s)) IN X.text = h /\ X.block = h
Next ==
   \/ Whole
   \/ Long
   \/ Missing
   \/ New
   \/ Added
   \/ Asked
   \/ Reset
   \/ Call
   \/ l = Len(Ev) + 1 /\ Tr.end \in {"done", "part"} /\ PrintT(<<"ACC", ti>>) /\ l' = l + 1 /\ UNCHANGED <<ti, kind, sofar>>
Spec == Init /\ [][Next]_vars
=============================================================================
