------------------------------ MODULE Printing ------------------------------
(* What printed numbers, durations, times and bytes are.                      *)
(*                                                                            *)
(* Texts are sequences of the codes of characters.  A value is                *)
(*   [neg |-> .., n |-> codes of digits, e |-> ..]    n 10^e, or its negative *)
(*                                                                            *)
(*   IsFixed(t, v, dp)        t is v, rounded to dp decimal places            *)
(*   IsScientific(t, v, dp)                                                   *)
(*   IsPrefixed(t, v, dp, b, unit)  t is v as a multiple of the power of b    *)
(*                            that its prefix stands for                      *)
(*   IsDuration(t, v, dp)     t is v nanoseconds; the fields are in range     *)
(*   IsHex(t, bytes, line, group)                                             *)
(*   Civil(days), Clock(seconds)                                              *)
EXTENDS BigNat
DASH == 45  PLUS == 43  DOT == 46  BLANK == 32  LINE == 10  LETTERE == 101
IsDigit(c) == c \in 48 .. 57
Digits(s) == s # <<>> /\ \A i \in 1 .. Len(s) : IsDigit(s[i])
Starts(s, c) == s # <<>> /\ s[1] = c
Rest(s) == IF Starts(s, DASH) THEN Tail(s) ELSE s
\* digits, and dp digits after a point
Decimal(s, dp) == IF dp = 0 THEN Digits(s)
                  ELSE LET k == Len(s) - dp IN k >= 2 /\ s[k] = DOT /\ Digits(SubSeq(s, 1, k - 1)) /\ Digits(SubSeq(s, k + 1, Len(s)))
Whole(s, dp) == IF dp = 0 THEN s ELSE SubSeq(s, 1, Len(s) - dp - 1)
\* The number without its point.
Mantissa(s, dp) == OfDigits(IF dp = 0 THEN s ELSE Whole(s, dp) \o SubSeq(s, Len(s) - dp + 1, Len(s)))
NoLeadingZero(s, dp) == Len(Whole(s, dp)) > 1 => s[1] # 48
Zero(v) == OfDigits(v.n) = <<>>
\* p 10^-dp b^k is n 10^e, rounded, as far as numbers in a machine can tell (15 digits or so).
Rounded(p, dp, b, k, n, e) ==
   LET up(x) == IF x > 0 THEN x ELSE 0
       a == Times(PowerOf(b, up(k)), PowerOf(10, up(-e)))
       q == Times(Times(n, PowerOf(10, up(e) + dp)), PowerOf(b, up(-k)))
       s == PowerOf(10, 14)
       many == Times(<<200>>, s)
   IN Within(Times(many, Times(p, a)), Times(many, q), Plus(Times(s, Times(<<101>>, a)), Times(<<200>>, q)))
\* The sign is there if the number is negative; it may be there for a negative number that is printed as zero.
Sign(t, v) == (Starts(t, DASH) => v.neg) /\ (v.neg => Starts(t, DASH) \/ \A i \in 1 .. Len(t) : t[i] \in 49 .. 57 => FALSE)
IsFixed(t, v, dp) ==
   /\ Sign(t, v) /\ Decimal(Rest(t), dp) /\ NoLeadingZero(Rest(t), dp)
   /\ Rounded(Mantissa(Rest(t), dp), dp, 10, 0, OfDigits(v.n), v.e)
----------------------------------------------------------------------------
IsScientific(t, v, dp) ==
   LET r == Rest(t)
       x == IF \E i \in 1 .. Len(r) : r[i] = LETTERE THEN CHOOSE i \in 1 .. Len(r) : r[i] = LETTERE ELSE 0
       m == SubSeq(r, 1, x - 1)
       f == SubSeq(r, x + 2, Len(r))
       k == (IF r[x + 1] = DASH THEN -1 ELSE 1) * FoldLeft(LAMBDA a, c : (10 * a) + c - 48, 0, f)
   IN /\ Sign(t, v) /\ x > 1 /\ x + 2 < Len(r) /\ r[x + 1] \in {DASH, PLUS} /\ Digits(f)
      /\ Decimal(m, dp) /\ Len(Whole(m, dp)) = 1 /\ (m[1] = 48 => Zero(v))
      /\ Rounded(Mantissa(m, dp), dp, 10, k, OfDigits(v.n), v.e)
----------------------------------------------------------------------------
Atto == -6
Exa == 6
\* a f p n micro m - k M G T P E; the fifth is two bytes in UTF-8.
PrefixTexts == << <<97>>, <<102>>, <<112>>, <<110>>, <<206, 188>>, <<109>>, <<>>, <<107>>, <<77>>, <<71>>, <<84>>, <<80>>, <<69>> >>
Ends(t, s) == Len(t) >= Len(s) /\ SubSeq(t, Len(t) - Len(s) + 1, Len(t)) = s
Less(t, s) == SubSeq(t, 1, Len(t) - Len(s))
\* Zero has no prefix; other numbers have the one that leaves 1 to b of them, or the last one there is.
IsPrefixed(t, v, dp, b, unit) ==
   /\ Ends(t, unit) /\ Sign(t, v)
   /\ \E i \in 1 .. Len(PrefixTexts) :
         LET u == Rest(Less(t, unit))
             d == Less(u, PrefixTexts[i])
             k == i + Atto - 1
             p == Mantissa(d, dp)
             one == PowerOf(10, dp)
         IN /\ Ends(u, PrefixTexts[i])
            /\ Decimal(d, dp) /\ NoLeadingZero(d, dp)
            /\ Rounded(p, dp, b, k, OfDigits(v.n), v.e)
            /\ IF Zero(v) THEN k = 0
               ELSE (k > Atto => Leq(one, p)) /\ (k < Exa => Leq(p, Times(Nat_(b), one)))
----------------------------------------------------------------------------
\* The codes of the units of fields, and how many seconds they are.
Units == << <<100, 86400>>, <<104, 3600>>, <<109, 60>>, <<115, 1>> >>
Num(s) == FoldLeft(LAMBDA a, c : (10 * a) + c - 48, 0, s)
Find(s, c) == IF \E i \in 1 .. Len(s) : s[i] = c THEN CHOOSE i \in 1 .. Len(s) : s[i] = c /\ \A j \in 1 .. i - 1 : s[j] # c ELSE 0
\* Fields from the u-th unit on: the seconds and the decimals, or a failure.
RECURSIVE Fields(_, _, _)
Fields(s, u, first) ==
   LET x == Find(s, Units[u][1])
       f == SubSeq(s, 1, x - 1)
       p == Find(f, DOT)
       w == IF p = 0 THEN f ELSE SubSeq(f, 1, p - 1)
       n == Num(w)
       good == /\ x > 1 /\ Digits(w) /\ Len(w) >= 2 /\ (Len(w) > 2 => first /\ w[1] # 48)
               /\ (first => n > 0) /\ (~(first /\ u = 1) => n < (IF u = 2 THEN 24 ELSE 60))
               /\ (p # 0 => u = 4 /\ Digits(SubSeq(f, p + 1, Len(f))))
   IN IF ~good THEN [ok |-> FALSE]
      ELSE IF u = 4 THEN [ok |-> x = Len(s), seconds |-> n, part |-> IF p = 0 THEN <<>> ELSE SubSeq(f, p + 1, Len(f))]
      ELSE LET r == Fields(SubSeq(s, x + 1, Len(s)), u + 1, FALSE)
           IN IF r.ok THEN [r EXCEPT !.seconds = @ + (n * Units[u][2])] ELSE r
RECURSIVE Ten(_)
Ten(n) == IF n = 0 THEN 1 ELSE 10 * Ten(n - 1)
Minute == 60
\* v.s seconds and v.ns nanoseconds.  Short ones are printed with a prefix, longer ones in fields; no decimals, if there are none.
IsDuration(t, v, dp) ==
   LET whole == v.s = 0 /\ v.ns = 0
       Value == [neg |-> v.neg, n |-> v.digits, e |-> -9]
       fields == \E u \in 1 .. 3 : LET r == Fields(Rest(t), u, TRUE) IN
                    /\ r.ok
                    /\ Len(r.part) = dp \/ r.part = <<>>
                    /\ LET unit == Ten(9 - dp)
                           part == IF r.part = <<>> THEN 0 ELSE Num(r.part) * unit
                           down == (v.ns \div unit) * unit
                       IN \* rounded down, or to the nearest
                          \/ r.seconds = v.s /\ part = down
                          \/ (v.ns - down) * 2 >= unit /\ (IF down + unit = 1000000000 THEN r.seconds = v.s + 1 /\ part = 0 ELSE r.seconds = v.s /\ part = down + unit)
   IN IF whole THEN t = <<48, 115>>
      ELSE /\ v.neg <=> Starts(t, DASH)
           /\ IF v.s >= Minute THEN fields ELSE IsPrefixed(t, Value, dp, 1000, <<115>>) \/ (v.s = Minute - 1 /\ fields)
----------------------------------------------------------------------------
HexCode(n) == IF n < 10 THEN 48 + n ELSE 87 + n
HexOf(b) == FoldLeft(LAMBDA r, x : r \o <<HexCode(x \div 16), HexCode(x % 16)>>, <<>>, b)
RECURSIVE Broken(_, _, _)
Broken(s, c, piece) == IF s = <<>> THEN <<piece>> ELSE IF Head(s) = c THEN <<piece>> \o Broken(Tail(s), c, <<>>) ELSE Broken(Tail(s), c, Append(piece, Head(s)))
RECURSIVE NoBlanks(_)
NoBlanks(s) == IF s # <<>> /\ s[Len(s)] = BLANK THEN NoBlanks(SubSeq(s, 1, Len(s) - 1)) ELSE s
\* Lines of groups: as many as fit, in all lines but the last.  What is done if no group fits is open.
IsHex(t, bytes, line, group) ==
   /\ SelectSeq(t, LAMBDA c : c \notin {BLANK, LINE}) = HexOf(bytes)
   /\ line = 0 => LINE \notin {t[i] : i \in 1 .. Len(t)}
   /\ group = 0 => BLANK \notin {t[i] : i \in 1 .. Len(t)}
   /\ (line >= 2 /\ 2 * group <= line) =>
         LET all == Broken(t, LINE, <<>>)
             ls == IF Len(all) > 1 /\ all[Len(all)] = <<>> THEN SubSeq(all, 1, Len(all) - 1) ELSE all
             perline == IF group = 0 THEN line \div 2 ELSE group * ((line + 1) \div (2 * group + 1))
         IN \A i \in 1 .. Len(ls) :
               LET gs == Broken(NoBlanks(ls[i]), BLANK, <<>>)
                   n == FoldLeft(LAMBDA a, g : a + Len(g), 0, gs) \div 2
               IN /\ i < Len(ls) => n = perline
                  /\ n <= perline
                  /\ group > 0 => \A j \in 1 .. Len(gs) : Len(gs[j]) = 2 * group \/ (i = Len(ls) /\ j = Len(gs) /\ Len(gs[j]) <= 2 * group)
----------------------------------------------------------------------------
Leap(y) == (y % 4 = 0 /\ y % 100 # 0) \/ y % 400 = 0
MonthLength(y, m) == IF m = 2 THEN (IF Leap(y) THEN 29 ELSE 28) ELSE IF m \in {4, 6, 9, 11} THEN 30 ELSE 31
YearLength(y) == IF Leap(y) THEN 366 ELSE 365
\* Days from the first of January of the year 1600 to the one of y.
ToYear(y) == LET k == y - 1600 IN (365 * k) + ((k + 3) \div 4) - ((k + 99) \div 100) + ((k + 399) \div 400)
ToMonth(y, m) == FoldLeft(LAMBDA a, i : a + MonthLength(y, i), 0, [i \in 1 .. m - 1 |-> i])
\* Days from the first of January 1970, from 1600 on.
DayOf(y, m, d) == ToYear(y) - ToYear(1970) + ToMonth(y, m) + d - 1
Civil(days) ==
   LET n == days + ToYear(1970)
       guess == 1600 + (n \div 366)
       y == CHOOSE x \in guess .. guess + (n \div 100000) + 2 : ToYear(x) <= n /\ n < ToYear(x + 1)
       r == n - ToYear(y)
       m == CHOOSE x \in 1 .. 12 : ToMonth(y, x) <= r /\ r < ToMonth(y, x) + MonthLength(y, x)
   IN [y |-> y, m |-> m, d |-> r - ToMonth(y, m) + 1]
Two(n) == <<48 + (n \div 10), 48 + (n % 10)>>
Four(n) == Two(n \div 100) \o Two(n % 100)
Clock(s) == Two(s \div 3600) \o <<58>> \o Two((s % 3600) \div 60) \o <<58>> \o Two(s % 60)
\* Year-month-day hours:minutes:seconds
DateText(days) == LET c == Civil(days) IN Four(c.y) \o <<DASH>> \o Two(c.m) \o <<DASH>> \o Two(c.d)
=============================================================================
