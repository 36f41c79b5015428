------------------------------- MODULE BigNat -------------------------------
(* Natural numbers of any size: digits to the base 1000, the lowest first.    *)
EXTENDS Integers, Sequences, SequencesExt
LOCAL Base == 1000
RECURSIVE Carried(_, _)
Carried(s, c) ==
   IF s = <<>> THEN (IF c = 0 THEN <<>> ELSE <<c % Base>> \o Carried(<<>>, c \div Base))
   ELSE <<(Head(s) + c) % Base>> \o Carried(Tail(s), (Head(s) + c) \div Base)
RECURSIVE Trimmed(_)
Trimmed(s) == IF s # <<>> /\ s[Len(s)] = 0 THEN Trimmed(SubSeq(s, 1, Len(s) - 1)) ELSE s
Nat_(n) == Trimmed(Carried(<<>>, n))
Get(a, i) == IF i >= 1 /\ i <= Len(a) THEN a[i] ELSE 0
Longer(a, b) == IF Len(a) > Len(b) THEN Len(a) ELSE Len(b)
Plus(a, b) == Trimmed(Carried([i \in 1 .. Longer(a, b) |-> Get(a, i) + Get(b, i)], 0))
Times(a, b) ==
   IF a = <<>> \/ b = <<>> THEN <<>>
   ELSE Trimmed(Carried([k \in 1 .. Len(a) + Len(b) |-> FoldLeft(LAMBDA t, i : t + (Get(a, i) * Get(b, k - i + 1)), 0, [i \in 1 .. Len(a) |-> i])], 0))
RECURSIVE PowerOf(_, _)
PowerOf(b, n) == IF n = 0 THEN <<1>> ELSE Times(Nat_(b), PowerOf(b, n - 1))
RECURSIVE LeqFrom(_, _, _)
LeqFrom(a, b, i) == IF i = 0 THEN TRUE ELSE IF a[i] # b[i] THEN a[i] < b[i] ELSE LeqFrom(a, b, i - 1)
Leq(a, b) == Len(a) < Len(b) \/ (Len(a) = Len(b) /\ LeqFrom(a, b, Len(a)))
\* From the codes of decimal digits.
OfDigits(s) == FoldLeft(LAMBDA n, c : Plus(Times(n, <<10>>), Nat_(c - 48)), <<>>, s)
\* a and b differ by at most d.
Within(a, b, d) == Leq(a, Plus(b, d)) /\ Leq(b, Plus(a, d))
=============================================================================
