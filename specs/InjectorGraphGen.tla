-------------------------- MODULE InjectorGraphGen --------------------------
(* Bindings that depend on each other, in one injector or in a parent and a   *)
(* child, with and without the problems that creation has to find.            *)
EXTENDS Injector, TLC
CONSTANTS DepKinds, Ns
VARIABLES h
Shapes == {<<"S", "lazy">>, <<"S", "eager">>, <<"CS", "lazy">>, <<"U", "inst">>, <<"S", "cls">>, <<"R", "ref">>}
Opt == {x \in Shapes \X Ns \X ({<<>>} \cup {<<d>> : d \in DepKinds \X Ns}) : x[1][2] = "ref" => x[3] = <<>>}   \* <<kind, form>>, name, dependencies
Txt(b, t) == b[1][1] \o ":" \o b[2] \o ":" \o b[1][2] \o ":" \o ToString(t) \o ":" \o (IF b[3] = <<>> THEN "" ELSE b[3][1][1] \o ":" \o b[3][1][2])
B(b, t) == [k |-> b[1][1], n |-> b[2], f |-> b[1][2], t |-> t, deps |-> b[3], o |-> 100 + t]
Start(p) == "create 1 0 " \o p
Init == IInit /\ h = ""
I(p) == [p |-> p, c |-> 0, v |-> FALSE, pres |-> <<>>]
Two == /\ h = ""
       /\ \E x, y \in Opt, split \in BOOLEAN :
            IF split
            THEN /\ h' = "create 1 0 one " \o Txt(x, 0) \o " 0 0 -|create 2 1 one " \o Txt(y, 1) \o " 0 0 -"
                 /\ conf' = (1 :> <<B(x, 0)>> @@ 2 :> <<B(y, 1)>>)
                 /\ inj' = (1 :> [I(0) EXCEPT !.c = 1] @@ 2 :> [I(1) EXCEPT !.c = 2])
            ELSE /\ h' = "create 1 0 one " \o Txt(x, 0) \o ";" \o Txt(y, 1) \o " 0 0 -"
                 /\ conf' = (1 :> <<B(x, 0), B(y, 1)>>)
                 /\ inj' = (1 :> [I(0) EXCEPT !.c = 1])
       /\ UNCHANGED <<store, objs, dead, handles, orph, stat>>
Emit == PrintT(<<"SCRIPT", h'>>)
Spec == Init /\ [][Two]_<<ivars, h>>
\* Without problems, the dependencies can be provided in some order.
Order == h # "" => LET j == IF 2 \in DOMAIN inj THEN 2 ELSE 1 IN
   (Problems(inj, conf, j) = {} /\ Problems(inj, conf, 1) = {}) =>
     \E s \in {<<1>>, <<1, 2>>, <<2, 1>>} : Len(s) = Len(conf[j]) /\
        \A i \in 1 .. Len(s) : \A d \in Rng(conf[j][s[i]].deps) : LET r == Resolve(inj, conf, j, d[1], d[2]) IN r # None /\ (r[1] = j => \E k \in 1 .. i - 1 : s[k] = r[2])
=============================================================================
