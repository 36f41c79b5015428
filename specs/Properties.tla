----------------------------- MODULE Properties -----------------------------
(* The hierarchical property format: what a text (a sequence of bytes) means. *)
(* A parse gives "error", "any" (the format leaves it open) or the nodes in   *)
(* document order, each <<depth, kind, name, value>>.                         *)
EXTENDS Numbers
TAB == 9  LF == 10  CR == 13  SP == 32  EXCL == 33  HASH == 35  COLON == 58  EQ == 61  AT == 64  BS == 92  OC == 123  CC == 125
Blank(c) == c = SP \/ c = TAB
Break(c) == c = LF \/ c = CR
\* The length of the line break at i: a pair of both characters is one break.
BreakLen(s, i) == IF At(s, i) = LF THEN (IF At(s, i + 1) = CR THEN 2 ELSE 1)
                  ELSE IF At(s, i) = CR THEN (IF At(s, i + 1) = LF THEN 2 ELSE 1) ELSE 0
RECURSIVE Blanks(_, _)
Blanks(s, i) == IF Blank(At(s, i)) THEN Blanks(s, i + 1) ELSE i
RECURSIVE LineEnd(_, _)
LineEnd(s, i) == IF i > Len(s) \/ Break(s[i]) THEN i ELSE LineEnd(s, i + 1)
\* After the escape at i: a line continuation takes the leading blanks of the next line.
Escape(s, i) == LET n == BreakLen(s, i + 1) IN IF n > 0 THEN Blanks(s, i + 1 + n) ELSE i + 2
\* The end of a key that starts at i, and whether it has characters it should not have.
RECURSIVE KeyEnd(_, _)
KeyEnd(s, i) == IF i > Len(s) THEN <<i, FALSE>>
                ELSE IF s[i] = BS THEN (IF i = Len(s) THEN <<i, TRUE>> ELSE KeyEnd(s, Escape(s, i)))
                ELSE IF s[i] \in {AT, OC, CC} THEN <<i, TRUE>>
                ELSE IF Blank(s[i]) \/ Break(s[i]) \/ s[i] \in {COLON, EQ} THEN <<i, FALSE>>
                ELSE KeyEnd(s, i + 1)
RECURSIVE ValueEnd(_, _)
ValueEnd(s, i) == IF i > Len(s) THEN <<i, FALSE>>
                  ELSE IF s[i] = BS THEN (IF i = Len(s) THEN <<i, TRUE>> ELSE ValueEnd(s, Escape(s, i)))
                  ELSE IF s[i] = AT THEN <<i, TRUE>>
                  ELSE IF Break(s[i]) THEN <<i, FALSE>>
                  ELSE ValueEnd(s, i + 1)
Error == [r |-> "error", nodes |-> <<>>]
Open == [r |-> "any", nodes |-> <<>>]
Sub(s, a, b) == SubSeq(s, a, b - 1)
Next1(s, i) == i + BreakLen(s, i)
RECURSIVE Nodes(_, _, _, _)
Nodes(s, at, d, acc) ==
   LET i == Blanks(s, at)
       c == At(s, i)
       add(j, k, n, v) == Nodes(s, Next1(s, j), d, Append(acc, <<d, k, n, v>>))
   IN IF c = -1 THEN (IF d = 0 THEN [r |-> "ok", nodes |-> acc] ELSE Error)
      ELSE IF Break(c) THEN add(i, "empty", <<>>, <<>>)
      ELSE IF c \in {HASH, EXCL} THEN LET j == LineEnd(s, i) IN add(j, "comment", Sub(s, i + 1, j), <<>>)
      ELSE IF c = AT THEN LET j == LineEnd(s, i) IN IF j = i + 1 THEN Open ELSE add(j, "include", Sub(s, i + 1, j), <<>>)
      ELSE IF c \in {OC, COLON, EQ} THEN Error
      ELSE IF c = CC THEN
         IF d = 0 THEN Error
         ELSE LET j == Blanks(s, i + 1) IN
              IF j # i + 1 THEN Open
              ELSE IF At(s, j) # -1 /\ ~Break(s[j]) THEN Error
              ELSE Nodes(s, Next1(s, j), d - 1, acc)
      ELSE LET k == KeyEnd(s, i)
               name == Sub(s, i, k[1])
               b1 == Blanks(s, k[1])
               b2 == IF At(s, b1) \in {COLON, EQ} THEN Blanks(s, b1 + 1) ELSE b1
           IN IF k[2] THEN Open
              ELSE IF At(s, b2) = -1 \/ Break(s[b2]) THEN add(b2, "value", name, <<>>)
              ELSE IF s[b2] = OC THEN
                   (IF BreakLen(s, b2 + 1) = 0 THEN Error
                    ELSE Nodes(s, Next1(s, b2 + 1), d + 1, Append(acc, <<d, "block", name, <<>>>>)))
              ELSE LET v == ValueEnd(s, b2) IN IF v[2] THEN Open ELSE add(v[1], "value", name, Sub(s, b2, v[1]))
\* Well formed UTF-8.
Cont(s, i) == At(s, i) >= 128 /\ At(s, i) < 192
RECURSIVE Utf8(_, _)
Utf8(s, i) == IF i > Len(s) THEN TRUE
   ELSE LET c == s[i] IN
        IF c < 128 THEN Utf8(s, i + 1)
        ELSE IF c >= 194 /\ c < 224 THEN Cont(s, i + 1) /\ Utf8(s, i + 2)
        ELSE IF c >= 224 /\ c < 240 THEN Cont(s, i + 1) /\ Cont(s, i + 2) /\ (c = 224 => s[i + 1] >= 160) /\ (c = 237 => s[i + 1] < 160) /\ Utf8(s, i + 3)
        ELSE IF c >= 240 /\ c < 245 THEN Cont(s, i + 1) /\ Cont(s, i + 2) /\ Cont(s, i + 3) /\ (c = 240 => s[i + 1] >= 144) /\ (c = 244 => s[i + 1] < 144) /\ Utf8(s, i + 4)
        ELSE FALSE
Parse(s) == IF ~Utf8(s, 1) THEN Error ELSE Nodes(s, 1, 0, <<>>)
\* The final form of a name or a value.
RECURSIVE Final(_, _)
Final(s, i) == IF i > Len(s) THEN <<>>
               ELSE IF s[i] # BS THEN <<s[i]>> \o Final(s, i + 1)
               ELSE IF i = Len(s) THEN <<>>
               ELSE IF BreakLen(s, i + 1) > 0 THEN Final(s, Escape(s, i))
               ELSE <<s[i + 1]>> \o Final(s, i + 2)
Finals(ns) == [i \in 1 .. Len(ns) |-> <<ns[i][1], ns[i][2], Final(ns[i][3], 1), Final(ns[i][4], 1)>>]
\* The printed form of nodes.
RECURSIVE Printed(_, _, _)
Tabs(d) == [x \in 1 .. d |-> TAB]
RECURSIVE Close(_, _)
Close(from, to) == IF from = to THEN <<>> ELSE Tabs(from - 1) \o <<CC, LF>> \o Close(from - 1, to)
Printed(ns, i, d) ==
   IF i > Len(ns) THEN Close(d, 0)
   ELSE LET n == ns[i]  k == n[2] IN
        Close(d, n[1]) \o
        (IF k = "empty" THEN <<LF>>
         ELSE Tabs(n[1]) \o (CASE k = "comment" -> <<HASH>> \o n[3] [] k = "include" -> <<AT>> \o n[3]
                               [] k = "block" -> n[3] \o <<SP, OC>> [] OTHER -> n[3] \o <<SP, EQ, SP>> \o n[4]) \o <<LF>>)
        \o Printed(ns, i + 1, IF k = "block" THEN n[1] + 1 ELSE n[1])
=============================================================================
