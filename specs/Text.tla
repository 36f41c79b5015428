-------------------------------- MODULE Text --------------------------------
(* What the string functions compute, on strings that are sequences of code  *)
(* points.  The UTF-8 and the UTF-32 forms of a string have the same answers, *)
(* except that positions and lengths are counted in the units of the form.    *)
EXTENDS Integers, Sequences, FiniteSets
At(s, i) == IF i <= Len(s) THEN s[i] ELSE -1
From(s, i) == SubSeq(s, i, Len(s))
OccursAt(s, p, i) == i + Len(p) - 1 <= Len(s) /\ \A k \in 1 .. Len(p) : s[i + k - 1] = p[k]
StartsWith(s, p) == OccursAt(s, p, 1)
EndsWith(s, p) == Len(p) <= Len(s) /\ OccursAt(s, p, Len(s) - Len(p) + 1)
Contains(s, p) == \E i \in 1 .. Len(s) + 1 : OccursAt(s, p, i)
RECURSIVE Map(_, _)
Map(F(_), s) == IF s = <<>> THEN <<>> ELSE <<F(Head(s))>> \o Map(F, Tail(s))
RECURSIVE Sum(_)
Sum(s) == IF s = <<>> THEN 0 ELSE Head(s) + Sum(Tail(s))
RECURSIVE Concat(_)
Concat(ss) == IF ss = <<>> THEN <<>> ELSE Head(ss) \o Concat(Tail(ss))
RECURSIVE Join(_, _)
Join(ss, d) == IF ss = <<>> THEN <<>> ELSE IF Len(ss) = 1 THEN ss[1] ELSE Head(ss) \o d \o Join(Tail(ss), d)
Reverse(s) == [i \in 1 .. Len(s) |-> s[Len(s) + 1 - i]]
Repeat(c, n) == [i \in 1 .. n |-> c]

(* Encoding.                                                                  *)
Bytes(c) == IF c < 128 THEN 1 ELSE IF c < 2048 THEN 2 ELSE IF c < 65536 THEN 3 ELSE 4
Length8(s) == Sum(Map(Bytes, s))
\* Ends of the code points.
Ends(s) == [i \in 1 .. Len(s) |-> Length8(SubSeq(s, 1, i))]
Starts(s) == [i \in 1 .. Len(s) |-> Length8(SubSeq(s, 1, i - 1))]
LastIndex(s, p) == LET at == {i \in 1 .. Len(s) + 1 : OccursAt(s, p, i)} IN
                   IF at = {} THEN 0 ELSE CHOOSE i \in at : \A j \in at : j <= i

(* Case.                                                                      *)
Pairs == {<<233, 201>>, <<255, 376>>, <<592, 11375>>, <<969, 937>>, <<66600, 66560>>, <<1078, 1046>>}
Upper(c) == IF c \in 97 .. 122 THEN c - 32
            ELSE IF \E p \in Pairs : p[1] = c THEN (CHOOSE p \in Pairs : p[1] = c)[2]
            ELSE CASE c = 305 -> 73 [] c = 383 -> 83 [] OTHER -> c
Lower(c) == IF c \in 65 .. 90 THEN c + 32
            ELSE IF \E p \in Pairs : p[2] = c THEN (CHOOSE p \in Pairs : p[2] = c)[1]
            ELSE CASE c = 8490 -> 107 [] c = 304 -> 105 [] OTHER -> c

(* White space.                                                               *)
Space(c) == c \in {32, 160, 5760, 8195, 8232, 8233, 12288}
RECURSIVE TrimLeft(_), TrimRight(_), Conflate(_)
TrimLeft(s) == IF s # <<>> /\ Space(Head(s)) THEN TrimLeft(Tail(s)) ELSE s
TrimRight(s) == IF s # <<>> /\ Space(s[Len(s)]) THEN TrimRight(SubSeq(s, 1, Len(s) - 1)) ELSE s
Trim(s) == TrimRight(TrimLeft(s))
Conflate(s) == IF s = <<>> THEN <<>>
               ELSE IF s[1] \in {9, 32} THEN (IF At(s, 2) \in {9, 32} THEN <<>> ELSE <<32>>) \o Conflate(Tail(s))
               ELSE <<s[1]>> \o Conflate(Tail(s))
Simplify(s) == Trim(Conflate(s))

(* Occurrences, as pairs of the first position and the one after the last,    *)
(* from left to right and without overlaps.                                   *)
RECURSIVE Found(_, _, _)
Found(s, p, i) == IF p = <<>> \/ i > Len(s) THEN <<>>
                  ELSE IF OccursAt(s, p, i) THEN <<<<i, i + Len(p)>>>> \o Found(s, p, i + Len(p))
                  ELSE Found(s, p, i + 1)
Occurrences(s, p) == Found(s, p, 1)
\* Of the regular expression that is a set of characters, or runs of them.
RECURSIVE RunEnd(_, _, _)
RunEnd(s, C, i) == IF At(s, i) \in C THEN RunEnd(s, C, i + 1) ELSE i
RECURSIVE RegexFound(_, _, _, _)
RegexFound(s, C, plus, i) == IF i > Len(s) THEN <<>>
                             ELSE IF s[i] \notin C THEN RegexFound(s, C, plus, i + 1)
                             ELSE LET e == IF plus THEN RunEnd(s, C, i) ELSE i + 1 IN <<<<i, e>>>> \o RegexFound(s, C, plus, e)
RegexOccurrences(s, C, plus) == RegexFound(s, C, plus, 1)
\* What is between the occurrences, one more than there are occurrences.
RECURSIVE Between(_, _, _)
Between(s, ms, i) == IF ms = <<>> THEN <<From(s, i)>> ELSE <<SubSeq(s, i, ms[1][1] - 1)>> \o Between(s, Tail(ms), ms[1][2])
Pieces(s, ms) == Between(s, ms, 1)
Replace(s, ms, r) == Join(Pieces(s, ms), r)
NonEmpty(ss) == SelectSeq(ss, LAMBDA x : x # <<>>)
RECURSIVE WithDelimiters(_, _, _, _)
WithDelimiters(s, ps, ms, compress) ==
   (IF compress /\ ps[1] = <<>> THEN <<>> ELSE <<ps[1]>>) \o
   (IF ms = <<>> THEN <<>> ELSE <<SubSeq(s, ms[1][1], ms[1][2] - 1)>> \o WithDelimiters(s, Tail(ps), Tail(ms), compress))
Split(s, ms, delimiters, compress) ==
   IF delimiters THEN WithDelimiters(s, Pieces(s, ms), ms, compress)
   ELSE IF compress THEN NonEmpty(Pieces(s, ms)) ELSE Pieces(s, ms)

(* Lines.                                                                     *)
RECURSIVE Breaks(_, _)
Breaks(s, i) == IF i > Len(s) THEN <<>>
                ELSE IF s[i] \in {10, 13} THEN LET e == IF At(s, i + 1) \in {10, 13} \ {s[i]} THEN i + 2 ELSE i + 1 IN <<<<i, e>>>> \o Breaks(s, e)
                ELSE Breaks(s, i + 1)
LineLengths(s, extra) == LET ls == Pieces(s, Breaks(s, 1))
                             ts == SubSeq(ls, 1, Len(ls) - 1)
                         IN Map(Length8, IF extra /\ ls[Len(ls)] # <<>> THEN ls ELSE ts)

(* Classes of the ASCII characters.                                           *)
LowerCase == 97 .. 122
UpperCase == 65 .. 90
Digits == 48 .. 57
Whitespace == 9 .. 13 \cup 28 .. 32
Punctuation == {33, 34, 35, 37, 38, 39, 40, 41, 42, 44, 45, 46, 47, 58, 59, 63, 64, 91, 92, 93, 95, 123, 125}
Classes(c) == {n \in {"lower", "upper", "digit", "hex", "octal", "binary", "alpha", "alnum", "control", "space", "whitespace", "blank", "print", "punct", "idstart", "idpart", "break", "incbreak"} :
   c \in CASE n = "lower" -> LowerCase [] n = "upper" -> UpperCase [] n = "digit" -> Digits
           [] n = "hex" -> Digits \cup 97 .. 102 \cup 65 .. 70 [] n = "octal" -> 48 .. 55 [] n = "binary" -> {48, 49}
           [] n \in {"alpha", "idstart"} -> LowerCase \cup UpperCase [] n = "alnum" -> LowerCase \cup UpperCase \cup Digits
           [] n = "control" -> 0 .. 31 \cup {127} [] n = "space" -> {32} [] n = "whitespace" -> Whitespace [] n = "blank" -> {9, 32}
           [] n = "print" -> 32 .. 126 [] n = "punct" -> Punctuation
           [] n = "idpart" -> LowerCase \cup UpperCase \cup Digits \cup {95}
           [] n = "break" -> Whitespace \cup {45} [] OTHER -> {45}}
=============================================================================
