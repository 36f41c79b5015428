----------------------------- MODULE ConvertGen -----------------------------
(* For every kind of integer and some bases: every short text, and texts with *)
(* the digits of the limits of the kind, changed in one digit, longer, and    *)
(* shorter.  For the functions on other values, every short text.             *)
EXTENDS Convert, TLC
CONSTANTS Most_, MostB
VARIABLES mode, kind, base, s, step
Kinds == {"byte", "ubyte", "short", "ushort", "int", "uint", "long", "ulong"}
Letters == CASE mode = "int" -> <<48, 57, 45, 43, 97>>
             [] mode = "base" -> <<48, 49, 55, 57, 97, 70, 122>>
             [] mode = "real" -> <<49, 48, 46, 45, 107>>
             [] mode = "text" -> <<97, 233, 8364, 128512, 0>>
             [] OTHER -> <<116, 82, 117, 69>>
Init == /\ step = 0
        /\ \/ mode = "int" /\ kind \in Kinds \cup {"longlong", "ulonglong"} /\ base = 10 /\ s \in {<<>>, Most(kind, 10), <<DASH>> \o Least(kind, 10)}
           \/ mode = "base" /\ kind \in Kinds /\ base \in {2, 7, 8, 10, 16, 35, 36} /\ s \in {<<>>, Most(kind, base), <<DASH>> \o Least(kind, base)}
           \/ mode = "real" /\ kind \in {"float", "double", "longdouble"} /\ base = 0 /\ s = <<>>
           \/ mode \in {"text", "bool"} /\ kind = "" /\ base = 0 /\ s = <<>>
\* A limit, changed a bit; or a short text, one letter longer.
Long(x) == Len(x) > 2
Short == /\ step = Len(s) /\ Len(s) < (IF mode = "bool" THEN 4 ELSE IF mode = "base" THEN MostB ELSE Most_)
         /\ \E i \in 1 .. Len(Letters) : s' = Append(s, Letters[i])
         /\ step' = step + 1
Change == /\ step = 0 /\ Long(s) /\ step' = 100
          /\ \/ \E i \in 1 .. Len(s), d \in {-1, 1} : LET v == DigitValue(s[i]) + d IN
                  /\ s[i] # DASH /\ v >= 0 /\ v < base
                  /\ s' = [s EXCEPT ![i] = DigitOf(v)]
             \/ s' = Append(s, 48) \/ s' = SubSeq(s, 1, Len(s) - 1)
             \/ s' = (IF s[1] = DASH THEN Tail(s) ELSE <<DASH>> \o s)
             \/ s' = (IF s[1] = DASH THEN <<DASH, 48, 48>> \o Tail(s) ELSE <<48, 48>> \o s)
             \/ s' = s
Step == UNCHANGED <<mode, kind, base>> /\ (Short \/ Change)
RECURSIVE Dots(_)
Dots(x) == IF x = <<>> THEN "" ELSE ToString(Head(x)) \o (IF Len(x) > 1 THEN "." ELSE "") \o Dots(Tail(x))
W(x) == IF x = <<>> THEN "-" ELSE Dots(x)
Line(x) == CASE mode = "int" -> "parse " \o kind \o " " \o W(x) \o (IF Good(kind, x, 10) THEN "|show " \o kind \o " " \o W(x) ELSE "")
             [] mode = "base" -> "base " \o kind \o " " \o W(x) \o " " \o ToString(base)
             [] mode = "real" -> "real " \o kind \o " " \o W(x)
             [] mode = "text" -> "text " \o W(x) \o "|first " \o W(x)
             [] OTHER -> "bool " \o W(x)
Emit == PrintT(<<"SCRIPT", Line(s')>>)
Spec == Init /\ [][Step]_<<mode, kind, base, s, step>>
Laws ==
   /\ (mode = "base" /\ base = 10 /\ Long(s)) => LET m == IF s[1] = DASH THEN 1 ELSE 2 IN step = 0 => (Limits(kind)[m] = Magnitude(s))
   /\ (mode = "int" /\ Good(kind, s, 10)) => Value(Value(s)) = Value(s) /\ (kind \in Kinds => InRange(kind, s))
   /\ (mode = "int" /\ kind \in Kinds /\ Integer(s) /\ InRange(kind, s)) => Good(kind, s, 10)
   /\ (mode = "base" /\ step = 0 /\ Long(s)) => Good(kind, s, base) /\ ~Good(kind, Append(s, 48), base)
=============================================================================
