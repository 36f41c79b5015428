----------------------------- MODULE TextTrace -----------------------------
EXTENDS Text, Json, IOUtils, TLC
Traces == ndJsonDeserialize(IOEnv.VT_TRACES)
VARIABLES ti, l
Tr == Traces[ti]
Ev == Tr.ev
X == Ev[l]
Init == ti \in 1 .. Len(Traces) /\ l = 1
Is(o) == l <= Len(Ev) /\ X.op = o /\ l' = l + 1 /\ UNCHANGED ti
\* Every kind of argument gives the same answer.
Each(rs, v) == \A i \in 1 .. Len(rs) : rs[i] = v
SetOf(q) == {q[i] : i \in 1 .. Len(q)}
Find == /\ Is("find")
        /\ LET s == X.s  p == X.p  i == LastIndex(s, p)  st == StartsWith(s, p)  en == EndsWith(s, p)  co == Contains(s, p) IN
           /\ Each(X.starts, st) /\ Each(X.ends, en) /\ Each(X.contains, co) /\ Each(X.count, Len(Occurrences(s, p)))
           /\ Each(X.last8, IF i = 0 THEN -1 ELSE Length8(SubSeq(s, 1, i - 1))) /\ Each(X.last32, i - 1)
           /\ (Len(p) = 1 => Each(X.cstarts32, st) /\ Each(X.cends32, en) /\ Each(X.ccontains32, co))
           /\ (Len(p) = 1 /\ p[1] < 128 => Each(X.cstarts8, st) /\ Each(X.cends8, en) /\ Each(X.ccontains8, co))
Cases == /\ Is("case")
         /\ Each(X.upper, Map(Upper, X.s)) /\ Each(X.lower, Map(Lower, X.s)) /\ Each(X.eq, Map(Lower, X.s) = Map(Lower, X.t))
Pad == /\ Is("pad")
       /\ LET fill == Repeat(X.c, IF X.n > Len(X.s) THEN X.n - Len(X.s) ELSE 0) IN
          Each(X.append, X.s \o Repeat(X.c, X.n)) /\ Each(X.left, fill \o X.s) /\ Each(X.right, X.s \o fill)
DoTrim == /\ Is("trim") /\ Each(X.both, Trim(X.s)) /\ Each(X.left, TrimLeft(X.s)) /\ Each(X.right, TrimRight(X.s))
DoSimplify == /\ Is("simplify") /\ X.out = Simplify(X.s)
DoReplace == /\ Is("replace")
             /\ LET ms == Occurrences(X.s, X.m) IN Each(X.out, Replace(X.s, ms, X.r)) /\ Each(X.count, Len(ms))
Regex == /\ Is("regex")
         /\ LET ms == RegexOccurrences(X.s, SetOf(X.cs), X.plus) IN
            /\ X.starts = (ms # <<>> /\ ms[1][1] = 1)
            /\ X.matches = (Len(ms) = 1 /\ ms[1] = <<1, Len(X.s) + 1>>)
            /\ Each(X.count, Len(ms)) /\ Each(X.replace, Replace(X.s, ms, X.r))
\* What splitting an empty string gives is not said.
RegexSplit == /\ Is("rsplit") /\ X.within
              /\ LET want == Split(X.s, RegexOccurrences(X.s, SetOf(X.cs), X.plus), X.delims, X.compress) IN
                 /\ IF X.s = <<>> THEN X.out \in {<<>>, <<<<>>>>} /\ (X.compress => X.out = <<>>) ELSE X.out = want
                 /\ X.copies = X.out /\ X.trimmed = Map(Trim, X.out)
DoSplit == /\ Is("split") /\ X.within
           /\ LET want == Split(X.s, Occurrences(X.s, X.d), FALSE, X.compress) IN
              IF X.s = <<>> THEN \A i \in 1 .. 2 : X.out[i] \in {<<>>, <<<<>>>>} /\ (X.compress /\ X.d # <<>> => X.out[i] = <<>>) /\ X.trimmed[i] = X.out[i]
              ELSE Each(X.out, want) /\ Each(X.trimmed, Map(Trim, want))
DoJoin == /\ Is("join")
          /\ Each(X.out, Join(X.l, X.d))
          /\ Each(X.around, Concat([i \in 1 .. Len(X.l) |-> X.p \o X.l[i] \o X.d]))
Lines == /\ Is("lines") /\ Each(X.extra, LineLengths(X.s, TRUE)) /\ Each(X.whole, LineLengths(X.s, FALSE))
Walk == /\ Is("walk")
        /\ Each(X.count, Len(X.s)) /\ Each(X.next, X.s) /\ Each(X.previous, Reverse(X.s))
        /\ Each(X.ahead, Ends(X.s)) /\ Each(X.back, Reverse(Starts(X.s)))
        /\ X.written = X.s \o Repeat(126, 4) /\ X.offsets = Ends(X.s)
\* Of the characters that are not ASCII, which are spaces and which have another case.
Odd == {160, 223, 233, 201, 255, 376, 305, 304, 592, 11375, 8364, 8195, 12288, 8490, 66560, 66600, 128512, 65533, 1114111}
Char == /\ Is("char")
        /\ X.bytes = Bytes(X.c) /\ X.valid
        /\ LET is == SetOf(X.is) IN
           /\ (X.c < 128 => X.up = Upper(X.c) /\ X.low = Lower(X.c) /\ (is \ (IF X.c < 32 \/ X.c = 127 THEN {"idpart"} ELSE {})) = Classes(X.c))
           /\ (X.c \in Odd => X.up = Upper(X.c) /\ X.low = Lower(X.c) /\ ("space" \in is) = Space(X.c)
                              /\ ("lower" \in is => "upper" \notin is) /\ is \cap {"octal", "binary", "incbreak"} = {})
Next ==
   \/ Find
   \/ Cases
   \/ Pad
   \/ DoTrim
   \/ DoSimplify
   \/ DoReplace
   \/ Regex
   \/ RegexSplit
   \/ DoSplit
   \/ DoJoin
   \/ Lines
   \/ Walk
   \/ Char
   \/ l = Len(Ev) + 1 /\ Tr.end \in {"done", "part"} /\ PrintT(<<"ACC", ti>>) /\ l' = l + 1 /\ UNCHANGED ti
Spec == Init /\ [][Next]_<<ti, l>>
=============================================================================
