-------------------------- MODULE CollectionsTrace --------------------------
EXTENDS Collections, Json, IOUtils, TLC
Traces == ndJsonDeserialize(IOEnv.VT_TRACES)
VARIABLES ti, l, c, kv
vars == <<ti, l, c, kv>>
Tr == Traces[ti]
Ev == Tr.ev
X == Ev[l]
Init == ti \in 1 .. Len(Traces) /\ l = 1 /\ c = <<>> /\ kv = <<>>
Is(o) == l <= Len(Ev) /\ X.op = o /\ l' = l + 1 /\ UNCHANGED ti
All(outs, v) == \A i \in 1 .. Len(outs) : outs[i] = v
\* Every kind of container holds the same.
Start == Is("init") /\ c' = X.xs /\ All(X.out, c') /\ UNCHANGED kv
Appended == Is("append") /\ c' = c \o X.xs /\ All(X.out, c') /\ All(X.source, X.xs) /\ UNCHANGED kv
More == Is("more") /\ c' = c \o Flat(X.xss) /\ All(X.out, c') /\ UNCHANGED kv
Pushed == Is("push") /\ c' = c \o X.xs /\ All(X.out, c') /\ UNCHANGED kv
Joined == Is("concat") /\ All(X.out, Flat(X.xss)) /\ UNCHANGED <<c, kv>>
Same == UNCHANGED <<c, kv>>
Map == Is("map") /\ All(X.out, Mapped(X.xs)) /\ Same
Has == /\ Is("contains") /\ Same
       /\ All(X.any, Elements(X.xs) \cap Elements(X.ys) # {})
       /\ \A i \in 1 .. Len(X.ys) : All(X.each[i], X.ys[i] \in Elements(X.xs))
\* In the order of the arguments, one object each.
Pointers == /\ Is("pointers") /\ Same
            /\ All(X.one, Mapped(X.xs)) /\ All(X.many, Many(X.xs)) /\ All(X.asked, X.xs) /\ X.alone
Texts == /\ Is("lines") /\ Same /\ X.lines = Lines(X.s) /\ All(X.text, X.s)
Consume == /\ Is("consume") /\ Same /\ X.out = Flat(X.ss) /\ X.good
Chars == /\ Is("chars") /\ Same /\ All(X.out, X.s)
Clear == Is("clear") /\ kv' = <<>> /\ UNCHANGED c
Entry == Is("entry") /\ kv' = Append(kv, <<X.k, X.v>>) /\ UNCHANGED c
Puts == Is("put") /\ kv' = Put(kv, <<X.k, X.v>>, X.mode, X.how) /\ All(X.out, kv') /\ UNCHANGED c
Next ==
   \/ Start
   \/ Appended
   \/ More
   \/ Pushed
   \/ Joined
   \/ Map
   \/ Has
   \/ Pointers
   \/ Texts
   \/ Consume
   \/ Chars
   \/ Clear
   \/ Entry
   \/ Puts
   \/ l = Len(Ev) + 1 /\ Tr.end \in {"done", "part"} /\ PrintT(<<"ACC", ti>>) /\ l' = l + 1 /\ UNCHANGED <<ti, c, kv>>
Spec == Init /\ [][Next]_vars
=============================================================================
