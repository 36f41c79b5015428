--------------------------- MODULE EnvironmentGen ---------------------------
(* Every choice of an environment, two type specification texts and hard     *)
(* wired specifications over two names and two levels.                       *)
EXTENDS Environment, TLC
CONSTANT Two
VARIABLES e, s, t, h
a == <<97>>
b == <<98>>
Item(p, k, v) == <<p, k, v>>
Docs == <<<<>>, <<Item(<<a>>, "value", 1)>>, <<Item(<<a>>, "value", 2)>>, <<Item(<<a>>, "value", 3)>>,
          <<Item(<<a>>, "block", 0), Item(<<a, b>>, "value", 1)>>, <<Item(<<a>>, "block", 0), Item(<<a, b>>, "value", 4)>>,
          <<Item(<<b>>, "value", 2), Item(<<a>>, "block", 0), Item(<<a, b>>, "block", 0), Item(<<a, b, a>>, "value", 2)>>,
          <<Item(<<a>>, "block", 0)>>>>
INTT == <<105, 110, 116>>
STR == <<115, 116, 114, 105, 110, 103>>
\* The specification texts and the values of the environment by number.
Types == <<INTT, INTT \o <<SP, EQ, SP, 53>>, STR \o <<EQ, 54>>, STR>>
Vals == <<<<49>>, <<50, 50>>, <<120>>, <<COLON, SP, 121>>>>
Names == <<"e", "s", "t">>
RECURSIVE Text(_, _, _, _)
Close2(d, n) == IF d > n THEN [i \in 1 .. 2 * (d - n) |-> IF i % 2 = 1 THEN CC ELSE LF] ELSE <<>>
Text(ds, i, d, vs) == IF i > Len(ds) THEN Close2(d, 0)
   ELSE LET x == ds[i]  n == Len(x[1]) - 1 IN
        Close2(d, n) \o (IF x[2] = "block" THEN Last(x[1]) \o <<SP, OC, LF>> ELSE Last(x[1]) \o <<SP, EQ, SP>> \o vs[x[3]] \o <<LF>>)
        \o Text(ds, i + 1, IF x[2] = "block" THEN n + 1 ELSE n, vs)
Files == {<<<<101>>, Text(Docs[e], 1, 0, Vals)>>, <<<<115>>, Text(Docs[s], 1, 0, Types)>>, <<<<116>>, Text(Docs[t], 1, 0, Types)>>}
Hard == {LET x == Docs[h][i]  ty == Typed(Types[IF x[3] = 0 THEN 1 ELSE x[3]]) IN
           [path |-> x[1], kind |-> x[2], type |-> IF x[2] = "value" THEN ty.type ELSE "group", def |-> IF x[2] = "value" THEN ty.def ELSE None] : i \in 1 .. Len(Docs[h])}
Result == Build(Files, <<<<101>>>>, <<<<115>>, <<116>>>>, Hard)
Init == e = 1 /\ s = 1 /\ t = 1 /\ h = 1
Step == e = 1 /\ s = 1 /\ t = 1 /\ h = 1
        /\ e' \in 1 .. Len(Docs) /\ s' \in 1 .. Len(Docs) /\ t' \in (IF Two THEN 1 .. Len(Docs) ELSE {1, 3, 6, 7}) /\ h' \in 1 .. Len(Docs) - 1
RECURSIVE Str(_)
Ch(c) == CASE c = 97 -> "a" [] c = 98 -> "b" [] c = 105 -> "i" [] c = 110 -> "n" [] c = 116 -> "t" [] c = 115 -> "s" [] c = 114 -> "r" [] c = 103 -> "g"
           [] c = 49 -> "1" [] c = 50 -> "2" [] c = 53 -> "5" [] c = 54 -> "6" [] c = 120 -> "x" [] c = 121 -> "y" [] c = SP -> "%20" [] c = LF -> "%0a" [] c = EQ -> "=" [] c = COLON -> ":"
           [] c = OC -> "{" [] c = CC -> "}"
Str(x) == IF x = <<>> THEN "" ELSE Ch(Head(x)) \o Str(Tail(x))
Digits == <<"0", "1", "2">>
RECURSIVE HardOps(_, _)
HardOps(ds, i) == IF i > Len(ds) THEN "" ELSE
   LET x == ds[i]  ty == Typed(Types[IF x[3] = 0 THEN 1 ELSE x[3]]) IN
   "hard " \o Digits[Len(x[1])] \o " " \o x[2] \o " " \o Str(Last(x[1])) \o " " \o (IF x[2] = "block" THEN "group" ELSE ty.type)
   \o (IF x[2] = "value" /\ ty.def # None THEN " " \o Str(ty.def.v) ELSE "") \o "|" \o HardOps(ds, i + 1)
Emit == PrintT(<<"SCRIPT", "names a b|file e " \o Str(Text(Docs[e'], 1, 0, Vals)) \o "|file s " \o Str(Text(Docs[s'], 1, 0, Types)) \o "|file t " \o Str(Text(Docs[t'], 1, 0, Types)) \o "|"
                          \o HardOps(Docs[h'], 1) \o "build strings e s,t">>)
Spec == Init /\ [][Step]_<<e, s, t, h>>
-----------------------------------------------------------------------------
\* What is bound is bound in blocks, and one value has one type.
Formed == LET r == Result IN (~r.open /\ r.errors = {}) =>
   /\ \A x \in r.must : \A p \in Prefixes(x[1]) : <<p, "group", <<>>, 0>> \in r.must
   /\ \A x, y \in r.must : x[1] = y[1] => x = y
\* Everything in the environment is bound, whatever the specifications say.
Kept == LET r == Result IN (~r.open /\ r.errors = {}) =>
   \A i \in 1 .. Len(Docs[e]) : LET x == Docs[e][i] IN \E y \in r.must : y[1] = x[1] /\ (x[2] = "block" <=> y[2] = "group") /\ (y[2] \in {"int", "string"} => y[3] = Vals[x[3]])
\* The hard wired specifications decide the type and the default.
Wired == LET r == Result IN (~r.open /\ r.errors = {}) =>
   \A x \in Hard : x.kind = "value" =>
      /\ \A y \in r.must : y[1] = x.path => y[2] \in {x.type, "group"}
      /\ (x.def # None /\ ~\E i \in 1 .. Len(Docs[e]) : Docs[e][i][1] = x.path) => <<x.path, x.type, x.def.v, 0>> \in r.must
=============================================================================
