------------------------------ MODULE Numbers ------------------------------
(* Texts that are numbers, as sequences of bytes.                            *)
EXTENDS Integers, Sequences, FiniteSets
DASH == 45  PLUS == 43  DOT == 46
At(s, i) == IF i <= Len(s) THEN s[i] ELSE -1
(* Numbers, as the digits of their magnitude.                                *)
Digit(c) == c >= 48 /\ c <= 57
Signed(s) == IF At(s, 1) \in {DASH, PLUS} THEN Tail(s) ELSE s
Integer(s) == Signed(s) # <<>> /\ \A i \in 1 .. Len(Signed(s)) : Digit(Signed(s)[i])
RECURSIVE Strip(_)
Strip(s) == IF Len(s) > 1 /\ Head(s) = 48 THEN Strip(Tail(s)) ELSE s
RECURSIVE LexLeq(_, _)
LexLeq(a, b) == IF a = <<>> THEN TRUE ELSE IF Head(a) # Head(b) THEN Head(a) < Head(b) ELSE LexLeq(Tail(a), Tail(b))
MagLeq(a, b) == Len(a) < Len(b) \/ (Len(a) = Len(b) /\ LexLeq(a, b))
N(ds) == [i \in 1 .. Len(ds) |-> 48 + ds[i]]
\* Largest magnitudes of the negative and the positive numbers of a kind.
Limits(kind) == CASE kind = "byte" -> <<N(<<1, 2, 8>>), N(<<1, 2, 7>>)>>
                  [] kind = "ubyte" -> <<N(<<0>>), N(<<2, 5, 5>>)>>
                  [] kind = "short" -> <<N(<<3, 2, 7, 6, 8>>), N(<<3, 2, 7, 6, 7>>)>>
                  [] kind = "ushort" -> <<N(<<0>>), N(<<6, 5, 5, 3, 5>>)>>
                  [] kind = "int" -> <<N(<<2, 1, 4, 7, 4, 8, 3, 6, 4, 8>>), N(<<2, 1, 4, 7, 4, 8, 3, 6, 4, 7>>)>>
                  [] kind = "uint" -> <<N(<<0>>), N(<<4, 2, 9, 4, 9, 6, 7, 2, 9, 5>>)>>
                  [] kind = "long" -> <<N(<<9, 2, 2, 3, 3, 7, 2, 0, 3, 6, 8, 5, 4, 7, 7, 5, 8, 0, 8>>), N(<<9, 2, 2, 3, 3, 7, 2, 0, 3, 6, 8, 5, 4, 7, 7, 5, 8, 0, 7>>)>>
                  [] kind = "ulong" -> <<N(<<0>>), N(<<1, 8, 4, 4, 6, 7, 4, 4, 0, 7, 3, 7, 0, 9, 5, 5, 1, 6, 1, 5>>)>>
InRange(kind, s) == LET m == Strip(Signed(s)) IN MagLeq(m, Limits(kind)[IF At(s, 1) = DASH THEN 1 ELSE 2])
Canonical(s) == LET m == Strip(Signed(s)) IN IF At(s, 1) = DASH /\ m # <<48>> THEN <<DASH>> \o m ELSE m
\* Plain decimal fractions with up to four and three digits, in thousandths.
Dot(s) == IF \E i \in 1 .. Len(s) : s[i] = DOT THEN CHOOSE i \in 1 .. Len(s) : s[i] = DOT ELSE Len(s) + 1
Plain(s) == LET t == Signed(s)  d == Dot(t)  f == SubSeq(t, d + 1, Len(t)) IN
   /\ d \in 2 .. 5 /\ Len(f) <= 3
   /\ \A i \in 1 .. Len(t) : i # d => Digit(t[i])
RECURSIVE Num(_, _)
Num(s, acc) == IF s = <<>> THEN acc ELSE Num(Tail(s), acc * 10 + Head(s) - 48)
Thousandths(s) == LET t == Signed(s)  d == Dot(t)  f == SubSeq(t, d + 1, Len(t))
                      m == Num(SubSeq(t, 1, d - 1), 0) * 1000 + Num(f, 0) * (CASE Len(f) = 0 -> 0 [] Len(f) = 1 -> 100 [] Len(f) = 2 -> 10 [] OTHER -> 1)
                  IN IF At(s, 1) = DASH THEN 0 - m ELSE m
\* Texts that cannot be numbers: no digit, or characters that no number has, or two dots, or a sign at the end.
NoNumber(s) == \/ s = <<>>
               \/ \E i \in 1 .. Len(s) : s[i] \in {33, 35, 44, 47, 58, 61, 64, 103, 122, 107, 118, 32}
               \/ Cardinality({i \in 1 .. Len(s) : s[i] = DOT}) > 1
               \/ At(s, Len(s)) \in {DASH, PLUS}
=============================================================================
