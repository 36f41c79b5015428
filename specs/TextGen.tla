------------------------------ MODULE TextGen ------------------------------
(* Every string of up to Most code points and, for the functions of two       *)
(* strings, every second string of up to MostP, with laws that relate the     *)
(* functions.                                                                 *)
EXTENDS Text, TLC
CONSTANTS Most, MostP
VARIABLES kind, s, p
Letters == CASE kind = "two" -> <<97, 98, 8364>>
             [] kind = "space" -> <<32, 9, 97, 12288>>
             [] kind = "lines" -> <<10, 13, 97, 233>>
             [] kind = "case" -> <<97, 65, 592, 376, 305, 8490, 66560, 223>>
             [] OTHER -> <<97, 233, 8364, 128512>>
Init == s = <<>> /\ p = <<>> /\ kind \in {"two", "space", "lines", "case", "walk"}
Step == /\ UNCHANGED kind
        /\ \E i \in 1 .. Len(Letters) :
           \/ Len(s) < (IF kind = "case" THEN Most - 2 ELSE IF kind = "two" THEN Most ELSE Most + 1) /\ s' = Append(s, Letters[i]) /\ p' = <<>>
           \/ kind = "two" /\ Len(p) < MostP /\ p' = Append(p, Letters[i]) /\ s' = s
           \/ kind = "case" /\ Len(p) < 1 /\ p' = Append(p, Letters[i]) /\ s' = s
RECURSIVE Dots(_)
Dots(x) == IF x = <<>> THEN "" ELSE ToString(Head(x)) \o (IF Len(x) > 1 THEN "." ELSE "") \o Dots(Tail(x))
W(x) == IF x = <<>> THEN "-" ELSE Dots(x)
\* Line breaks are in no string that is trimmed, and tabs in none that is not simplified.
Line == CASE kind = "two" -> "find " \o W(s') \o " " \o W(p') \o "|replace " \o W(s') \o " " \o W(p') \o " 97.98|replace " \o W(s') \o " " \o W(p') \o " -|split " \o W(s') \o " " \o W(p') \o " 0|split " \o W(s') \o " " \o W(p') \o " 1"
                             \o (IF p' = <<>> THEN "|regex " \o W(s') \o " 97 1 98.98|regex " \o W(s') \o " 97.98 0 -|rsplit " \o W(s') \o " 97 0 0 0|rsplit " \o W(s') \o " 98 1 0 1|rsplit " \o W(s') \o " 97 1 1 0|rsplit " \o W(s') \o " 97 0 1 1" ELSE "")
          [] kind = "space" -> "simplify " \o W(s') \o (IF \A i \in 1 .. Len(s') : s'[i] # 9 THEN "|trim " \o W(s') ELSE "")
          [] kind = "lines" -> "lines " \o W(s')
          [] kind = "case" -> "case " \o W(s') \o " " \o W(p')
          [] OTHER -> "walk " \o W(s') \o "|pad " \o W(s') \o " 5 32|pad " \o W(s') \o " 2 233"
Emit == PrintT(<<"SCRIPT", Line>>)
Spec == Init /\ [][Step]_<<kind, s, p>>
Laws ==
   /\ kind = "two" =>
      LET ms == Occurrences(s, p)  ps == Pieces(s, ms) IN
      /\ (p # <<>> => (ms # <<>>) = Contains(s, p))
      /\ (StartsWith(s, p) \/ EndsWith(s, p) => Contains(s, p))
      /\ (Contains(s, p) = (LastIndex(s, p) # 0))
      /\ Replace(s, ms, p) = s
      /\ Join(ps, p) = s
      /\ (p # <<>> => \A i \in 1 .. Len(ps) : ~Contains(ps[i], p))
      /\ Concat(Split(s, ms, TRUE, TRUE)) = s
      /\ Concat(Split(s, ms, TRUE, FALSE)) = s
      /\ Length8(s \o p) = Length8(s) + Length8(p)
   /\ kind = "space" => /\ Trim(Trim(s)) = Trim(s) /\ Simplify(Simplify(s)) = Simplify(s) /\ TrimLeft(TrimRight(s)) = Trim(s)
   /\ kind = "lines" => Sum(LineLengths(s, TRUE)) + Cardinality({i \in 1 .. Len(s) : s[i] \in {10, 13}}) = Length8(s)
   /\ kind = "case" => Len(Map(Upper, s)) = Len(s) /\ Map(Upper, Map(Upper, s)) = Map(Upper, s) /\ Map(Lower, Map(Lower, s)) = Map(Lower, s)
=============================================================================
