------------------------------ MODULE Convert ------------------------------
(* Values as text.  Texts are sequences of code points; an integer is its     *)
(* decimal digits with an optional minus sign.                                *)
EXTENDS Numbers
(* Integers in any base from 2 to 36.                                        *)
DigitValue(c) == IF c >= 48 /\ c <= 57 THEN c - 48 ELSE IF c >= 97 /\ c <= 122 THEN c - 87 ELSE IF c >= 65 /\ c <= 90 THEN c - 55 ELSE 99
DigitOf(v) == IF v < 10 THEN 48 + v ELSE 87 + v
InBase(s, b) == Signed(s) # <<>> /\ \A i \in 1 .. Len(Signed(s)) : DigitValue(Signed(s)[i]) < b
Lower(s) == [i \in 1 .. Len(s) |-> IF s[i] >= 65 /\ s[i] <= 90 THEN s[i] + 32 ELSE s[i]]
Magnitude(s) == Strip(Lower(Signed(s)))
\* Twice a number plus a bit, and with it the powers of two, as digits in a base, the last digit first.
RECURSIVE Twice(_, _, _)
Twice(ds, carry, b) == IF ds = <<>> THEN (IF carry = 0 THEN <<>> ELSE <<carry>>)
                       ELSE LET v == Head(ds) * 2 + carry IN <<v % b>> \o Twice(Tail(ds), v \div b, b)
RECURSIVE Ones(_, _)
Ones(n, b) == IF n = 0 THEN <<0>> ELSE Twice(Ones(n - 1, b), 1, b)
RECURSIVE PowerOf2(_, _)
PowerOf2(n, b) == IF n = 0 THEN <<1>> ELSE Twice(PowerOf2(n - 1, b), 0, b)
Digits(ds) == [i \in 1 .. Len(ds) |-> DigitOf(ds[Len(ds) + 1 - i])]
Bits(kind) == CASE kind \in {"byte", "ubyte"} -> 8 [] kind \in {"short", "ushort"} -> 16 [] kind \in {"int", "uint"} -> 32 [] OTHER -> 64
Unsigned(kind) == kind \in {"ubyte", "ushort", "uint", "ulong", "ulonglong"}
Most(kind, b) == Strip(Digits(Ones(IF Unsigned(kind) THEN Bits(kind) ELSE Bits(kind) - 1, b)))
Least(kind, b) == IF Unsigned(kind) THEN <<48>> ELSE Strip(Digits(PowerOf2(Bits(kind) - 1, b)))
\* Letters come after digits in the order of the code points as they do as digits.
Fits(kind, s, b) == MagLeq(Magnitude(s), IF At(s, 1) = DASH THEN Least(kind, b) ELSE Most(kind, b))
Value(s) == LET m == Magnitude(s) IN IF At(s, 1) = DASH /\ m # <<48>> THEN <<DASH>> \o m ELSE m
Good(kind, s, b) == InBase(s, b) /\ Fits(kind, s, b)

(* Booleans, pairs, and containers.                                          *)
TRUTH == <<116, 114, 117, 101>>
FALSITY == <<102, 97, 108, 115, 101>>
RECURSIVE Commas(_)
Commas(l) == IF Len(l) = 1 THEN l[1] ELSE l[1] \o <<44, 32>> \o Commas(Tail(l))
Braces(l) == IF l = <<>> THEN <<123, 125>> ELSE <<123, 32>> \o Commas(l) \o <<32, 125>>
RECURSIVE Flat(_)
Flat(l) == IF l = <<>> THEN <<>> ELSE Head(l) \o Flat(Tail(l))
\* Texts of numbers with too large an exponent for the kind.
E == 101
HugeFor(kind, s) == \E k \in 1 .. Len(s) : /\ s[k] = E /\ k \in 2 .. 4 /\ Len(s) - k \in 2 .. 5
                       /\ \A i \in 1 .. Len(s) : i # k => Digit(s[i])
                       /\ s[1] # 48
                       /\ Num(SubSeq(s, k + 1, Len(s)), 0) >= (CASE kind = "float" -> 39 [] kind = "double" -> 309 [] OTHER -> 4933)
=============================================================================
