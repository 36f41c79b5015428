----------------------------- MODULE Assertions -----------------------------
(* Assertions and matchers of the testing library.  Texts are sequences of    *)
(* code points, values are integers, texts, or rows of integers or texts.     *)
EXTENDS Integers, Sequences
Digits10(n) == LET RECURSIVE D(_)
                   D(k) == IF k < 10 THEN <<48 + k>> ELSE Append(D(k \div 10), 48 + (k % 10))
               IN IF n < 0 THEN <<45>> \o D(-n) ELSE D(n)
(* The order of values.                                                      *)
LessInt(a, b) == a < b
RECURSIVE LessText(_, _)
LessText(a, b) == IF a = <<>> \/ b = <<>> THEN a = <<>> /\ b # <<>>
                  ELSE IF a[1] = b[1] THEN LessText(Tail(a), Tail(b)) ELSE a[1] < b[1]
RECURSIVE LessRow(_, _)
LessRow(a, b) == IF a = <<>> \/ b = <<>> THEN a = <<>> /\ b # <<>>
                 ELSE IF a[1] = b[1] THEN LessRow(Tail(a), Tail(b)) ELSE LessText(a[1], b[1])
\* Rows of numbers are ordered as texts are.
Less(kind, a, b) == CASE kind = "int" -> LessInt(a, b) [] kind \in {"text", "row"} -> LessText(a, b) [] kind = "rows" -> LessRow(a, b)
Starts(a, e) == Len(e) <= Len(a) /\ SubSeq(a, 1, Len(e)) = e
Ends(a, e) == Len(e) <= Len(a) /\ SubSeq(a, Len(a) - Len(e) + 1, Len(a)) = e
Contains(a, e) == \E i \in 0 .. Len(a) - Len(e) : SubSeq(a, i + 1, i + Len(e)) = e
Matches(m, kind, a, e) ==
   CASE m = "is" -> a = e
     [] m = "isNot" -> a # e
     [] m = "isGreaterThan" -> Less(kind, e, a)
     [] m = "isGreaterThanOrEqualTo" -> ~Less(kind, a, e)
     [] m = "isLessThan" -> Less(kind, a, e)
     [] m = "isLessThanOrEqualTo" -> ~Less(kind, e, a)
     [] m = "startsWith" -> Starts(a, e)
     [] m = "endsWith" -> Ends(a, e)
     [] m = "contains" -> Contains(a, e)
     [] m = "doesNotContain" -> ~Contains(a, e)
Near(a, e, d) == a >= e - d /\ a <= e + d

(* What is said of a failed assertion.                                       *)
NL == 10
Visible(s) == LET RECURSIVE V(_)
                  V(i) == IF i > Len(s) THEN <<>>
                          ELSE (CASE s[i] = 9 -> <<183, 183, 8674, 183>> [] s[i] = 32 -> <<183>> [] OTHER -> <<s[i]>>) \o V(i + 1)
              IN V(1)
\* The pieces between the points of a kind.
RECURSIVE Cut(_, _, _, _)
Cut(s, c, i, cur) == IF i > Len(s) THEN <<cur>>
                     ELSE IF s[i] = c THEN <<cur>> \o Cut(s, c, i + 1, <<>>) ELSE Cut(s, c, i + 1, Append(cur, s[i]))
Pieces(s, c) == Cut(s, c, 1, <<>>)
Full(s) == s # <<>>
Words(s) == SelectSeq(Pieces(s, 32), Full)
\* An end of line after the last line begins no further line.
Lines(s) == LET p == Pieces(s, NL) IN IF p[Len(p)] = <<>> THEN SubSeq(p, 1, Len(p) - 1) ELSE p
Mark(same) == IF same THEN <<61, 61>> ELSE <<33, 61>>
Shown(x) == IF Full(x) THEN <<x>> ELSE <<>>
TwoLines(a, e, i) == LET x == Lines(a) y == Lines(e) n == Digits10(i) IN
   IF i <= Len(x) /\ i <= Len(y) THEN {<<n>> \o Shown(Visible(x[i])) \o <<Mark(x[i] = y[i])>> \o <<n>> \o Shown(Visible(y[i]))}
   ELSE IF i <= Len(x) THEN {<<n>> \o Shown(Visible(x[i])) \o <<Mark(FALSE)>> \o k : k \in {<<>>, <<n>>}}
   ELSE {<<n>> \o <<Mark(FALSE)>> \o k \o Shown(Visible(y[i])) : k \in {<<>>, <<n>>}}
Heading == <<<<35>>, <<65, 67, 84, 85, 65, 76>>, <<35>>, <<69, 88, 80, 69, 67, 84, 69, 68>>>>
\* The text with the values side by side; after the lines there may be rows that tell of ends of lines.
SideBySide(said, a, e) ==
   IF Len(Lines(a)) = 1 /\ Len(Lines(e)) = 1 THEN said = Visible(Lines(a)[1]) \o <<32, 32>> \o Mark(a = e) \o <<32, 32>> \o Visible(Lines(e)[1])
   ELSE LET p == Pieces(said, NL)
            rows == SelectSeq([i \in 1 .. Len(p) |-> Words(p[i])], LAMBDA x : x # <<>>)
            n == IF Len(Lines(a)) > Len(Lines(e)) THEN Len(Lines(a)) ELSE Len(Lines(e))
        IN /\ Len(rows) \in {n + 1, n + 2} /\ rows[1] = Heading
           /\ \A i \in 1 .. n : rows[i + 1] \in TwoLines(a, e, i)
           /\ Len(rows) = n + 2 => rows[n + 2] \in {<<Mark(FALSE)>>, <<Digits10(n + 1), Mark(FALSE)>>}
\* The text with the elements of containers side by side.  Control characters are named.
RECURSIVE Named(_)
Named(s) == IF s = <<>> THEN <<>>
            ELSE CASE Len(s) > 1 /\ s[1] = 13 /\ s[2] = 10 -> <<60, 67, 82, 76, 70, 62>> \o Named(SubSeq(s, 3, Len(s)))
                   [] Len(s) > 1 /\ s[1] = 10 /\ s[2] = 13 /\ ~(Len(s) > 2 /\ s[3] = 10) -> <<60, 76, 70, 67, 82, 62>> \o Named(SubSeq(s, 3, Len(s)))
                   [] s[1] = 10 -> <<60, 76, 70, 62>> \o Named(Tail(s))
                   [] s[1] = 13 -> <<60, 67, 82, 62>> \o Named(Tail(s))
                   [] s[1] = 9 -> <<60, 84, 65, 66, 62>> \o Named(Tail(s))
                   [] OTHER -> <<s[1]>> \o Named(Tail(s))
Element(kind, x) == IF kind = "row" THEN <<Digits10(x)>> ELSE Words(Named(x))
Elements(said, kind, a, e) ==
   LET p == Pieces(said, NL)
       rows == SelectSeq([i \in 1 .. Len(p) |-> Words(p[i])], LAMBDA x : x # <<>>)
       n == IF Len(a) > Len(e) THEN Len(a) ELSE Len(e)
   IN /\ Len(rows) = n + 1
      /\ \A i \in 1 .. n : rows[i + 1] = <<Append(Digits10(i - 1), 58)>>
            \o (IF i <= Len(a) THEN Element(kind, a[i]) ELSE <<>>)
            \o <<Mark(i <= Len(a) /\ i <= Len(e) /\ a[i] = e[i])>>
            \o (IF i <= Len(e) THEN Element(kind, e[i]) ELSE <<>>)
Rendered(said, kind, a, e) == CASE kind = "int" -> SideBySide(said, Digits10(a), Digits10(e))
                                [] kind = "text" -> SideBySide(said, a, e)
                                [] OTHER -> Elements(said, kind, a, e)

(* Exceptions: std::exception above Err above Sub, and Other.  An exception   *)
(* is what was thrown and its code; its text is its name and its code.        *)
Above(c) == CASE c = "Sub" -> {"Sub", "Err", "std"} [] c = "Err" -> {"Err", "std"} [] c = "Other" -> {"Other", "std"} [] c = "std" -> {"std"} [] OTHER -> {}
Name(c) == CASE c = "Sub" -> <<83, 117, 98>> [] c = "Err" -> <<69, 114, 114>> [] OTHER -> <<79, 116, 104, 101, 114>>
What(c, n) == Name(c) \o Digits10(n)
(* Classes: D below C below B below A; M below C and X.                       *)
Ancestors(c) == CASE c = "A" -> {"A"} [] c = "B" -> {"A", "B"} [] c = "C" -> {"A", "B", "C"} [] c = "D" -> {"A", "B", "C", "D"} [] c = "M" -> {"A", "B", "C", "X", "M"}
=============================================================================
