------------------------------- MODULE Chance -------------------------------
(* Random numbers and identifiers.  A generator is its bounds and, if it has  *)
(* one, its seed; a number is its distance from the lower bound, in steps.    *)
(* Identifiers are sequences of 16 bytes.                                     *)
EXTENDS Integers, Sequences, FiniteSets
Draws(w) == 0 .. w
\* With this many draws a small range is exhausted (but for a chance of less than 1 in 10^20).
Enough(w) == IF w <= 3 THEN 400 ELSE 4000
Set(s) == {s[i] : i \in 1 .. Len(s)}
Within(ds, w) == Set(ds) \subseteq Draws(w)
Exhausted(ds, w) == (w <= 15 /\ Len(ds) >= Enough(w)) => Set(ds) = Draws(w)

RECURSIVE Less(_, _)
Less(a, b) == b # <<>> /\ (a = <<>> \/ Head(a) < Head(b) \/ (Head(a) = Head(b) /\ Less(Tail(a), Tail(b))))
Random4(u) == Len(u) = 16 /\ (u[7] \div 16) = 4 /\ (u[9] \div 64) = 2
Digit(d) == IF d < 10 THEN 48 + d ELSE 87 + d
Dashes == {4, 6, 8, 10}
RECURSIVE TextFrom(_, _)
TextFrom(u, i) == IF i > Len(u) THEN <<>> ELSE <<Digit(u[i] \div 16), Digit(u[i] % 16)>> \o (IF i \in Dashes THEN <<45>> ELSE <<>>) \o TextFrom(u, i + 1)
Text(u) == TextFrom(u, 1)
Compared(a, b) == [lt |-> Less(a, b), gt |-> Less(b, a), eq |-> a = b, ne |-> a # b, le |-> ~Less(b, a), ge |-> ~Less(a, b)]
=============================================================================
