----------------------------- MODULE ChanceTrace -----------------------------
EXTENDS Chance, Json, IOUtils, TLC
Traces == ndJsonDeserialize(IOEnv.VT_TRACES)
VARIABLES ti, l, said, ids
vars == <<ti, l, said, ids>>
Tr == Traces[ti]
Ev == Tr.ev
X == Ev[l]
Init == ti \in 1 .. Len(Traces) /\ l = 1 /\ said = {} /\ ids = {}
Is(o) == l <= Len(Ev) /\ X.op = o /\ l' = l + 1 /\ UNCHANGED ti
\* In the bounds, both of which occur.
Range == Is("range") /\ Within(X.draws, X.width) /\ Exhausted(X.draws, X.width) /\ UNCHANGED <<said, ids>>
\* A wide range in 16 equal parts; every number in it, every part of it reached.
Wide == Is("wide") /\ X.inside /\ Set(X.parts) = 0 .. 15 /\ UNCHANGED <<said, ids>>
\* The same bounds and seed: the same numbers.  Others: others.
Seeded == /\ Is("seeded") /\ UNCHANGED ids
          /\ \A s \in said : (s.type = X.type /\ s.bounds = X.bounds) => ((s.seed = X.seed /\ X.seed # "own") <=> s.numbers = X.numbers)
          /\ said' = said \cup {[type |-> X.type, bounds |-> X.bounds, seed |-> X.seed, numbers |-> X.numbers]}
Ids == /\ Is("ids") /\ UNCHANGED said
       /\ \A i \in 1 .. Len(X.ids) : Random4(X.ids[i])
       /\ Cardinality(Set(X.ids)) = Len(X.ids) /\ Set(X.ids) \cap ids = {}
       /\ ids' = ids \cup Set(X.ids)
Forms == /\ Is("forms") /\ UNCHANGED <<said, ids>>
         /\ \A i \in 1 .. Len(X.bytes) : X.bytes[i] = X.bytes[1]
         /\ \A i \in 1 .. Len(X.text) : X.text[i] = Text(X.bytes[1])
Order == Is("order") /\ UNCHANGED <<said, ids>> /\ X.is = Compared(X.a, X.b)
Next ==
   \/ Range
   \/ Wide
   \/ Seeded
   \/ Ids
   \/ Forms
   \/ Order
   \/ l = Len(Ev) + 1 /\ Tr.end \in {"done", "part"} /\ PrintT(<<"ACC", ti>>) /\ l' = l + 1 /\ UNCHANGED <<ti, said, ids>>
Spec == Init /\ [][Next]_vars
=============================================================================
