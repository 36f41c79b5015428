---------------------------- MODULE PrintingGen ----------------------------
(* Digits and exponents on both sides of every prefix, durations around every *)
(* border of their forms, small dumps of every shape, and the days around the *)
(* borders of months and of centuries.                                        *)
EXTENDS Printing, TLC
CONSTANT MostHex
VARIABLES mode, a, b, c, done
vars == <<mode, a, b, c, done>>
Mantissas == <<"0", "1", "999", "1000", "1023", "1024", "1025", "15", "995", "9994999", "9995001", "123456789">>
Spans == <<0, 1, 59, 60, 61, 119, 120, 3599, 3600, 3601, 86399, 86400, 86401, 90061, 864000, 8640000>>
Parts == <<0, 1, 40, 49, 51, 94, 96, 499, 501, 949, 951, 994, 996, 999>>
Years == {1600, 1700, 1899, 1900, 1904, 1969, 1970, 1971, 1972, 1999, 2000, 2001, 2004, 2038, 2100, 2399, 2400}
Init == /\ done = FALSE
        /\ \/ mode = "number" /\ a \in 1 .. Len(Mantissas) /\ b \in -24 .. 20 /\ c \in {0, 1, 3}
           \/ mode = "span" /\ a \in 1 .. Len(Spans) /\ b \in 1 .. Len(Parts) /\ c \in 0 .. 3
           \/ mode = "hex" /\ a \in 0 .. MostHex /\ b \in 0 .. 9 /\ c \in 0 .. 4
           \/ mode = "date" /\ a \in Years /\ b \in 1 .. 12 /\ c \in {0, 1}
Step == ~done /\ done' = TRUE /\ UNCHANGED <<mode, a, b, c>>
S(x) == ToString(x)
RECURSIVE Some(_)
Some(n) == IF n = 0 THEN "" ELSE S((n * 113 + 7 * MostHex) % 256) \o (IF n > 1 THEN "." ELSE "") \o Some(n - 1)
Sign_(x) == IF x % 2 = 0 THEN "0" ELSE "1"
Number(f, t) == f \o " " \o t \o " " \o Sign_(a + b) \o " " \o Mantissas[a] \o " " \o S(b) \o " " \o S(c)
DayNo == DayOf(a, b, IF c = 0 THEN 1 ELSE MonthLength(a, b))
Line == CASE mode = "number" -> Number("metric", "double") \o "|" \o Number("metric", "longdouble") \o "|" \o Number("binary", "double") \o "|" \o Number("sci", "longdouble")
                                 \o (IF b < 6 THEN "|" \o Number("fixed", "longdouble") ELSE "")
          [] mode = "span" -> "duration ms " \o (IF b % 2 = 0 THEN "-" ELSE "") \o S(Spans[a]) \o (IF Parts[b] < 10 THEN "00" ELSE IF Parts[b] < 100 THEN "0" ELSE "") \o S(Parts[b]) \o " " \o S(c)
                              \o "|duration s " \o (IF b % 2 = 0 THEN "-" ELSE "") \o S(Spans[a]) \o " " \o S(c)
          [] mode = "hex" -> "hex " \o (IF a = 0 THEN "-" ELSE Some(a)) \o " " \o S(b) \o " " \o S(c)
          [] OTHER -> "date " \o S(DayNo) \o " " \o S((a * b * 37) % 86400) \o "|clock " \o S((a * b * 131) % 86400)
Emit == done' => PrintT(<<"SCRIPT", Line>>)
Spec == Init /\ [][Step]_vars
T(n) == IF n < 10 THEN <<48 + n>> ELSE IF n < 100 THEN Two(n) ELSE <<48 + (n \div 100)>> \o Two(n % 100)
Laws ==
   \* The calendar: dates and days are each other's inverses, and days follow each other.
   /\ mode = "date" => /\ Civil(DayNo) = [y |-> a, m |-> b, d |-> IF c = 0 THEN 1 ELSE MonthLength(a, b)]
                       /\ (c = 1 => Civil(DayNo + 1) = (IF b = 12 THEN [y |-> a + 1, m |-> 1, d |-> 1] ELSE [y |-> a, m |-> b + 1, d |-> 1]))
                       /\ ToYear(a + 1) - ToYear(a) = YearLength(a)
   \* The answer that is right, and one that is not.
   /\ mode = "number" => /\ IsPrefixed(<<49, DOT, 53, 107>>, [neg |-> FALSE, n |-> <<49, 53>>, e |-> 2], 1, 1000, <<>>)
                         /\ ~IsPrefixed(<<49, DOT, 52, 107>>, [neg |-> FALSE, n |-> <<49, 53>>, e |-> 2], 1, 1000, <<>>)
                         /\ ~IsPrefixed(<<49, 53, 48, 48, DOT, 48>>, [neg |-> FALSE, n |-> <<49, 53>>, e |-> 2], 1, 1000, <<>>)
   /\ mode = "hex" => LET s == [i \in 1 .. a |-> (i * 113) % 256] IN IsHex(HexOf(s), s, 0, 0) /\ (a > 0 => ~IsHex(Append(HexOf(s), 48), s, 0, 0))
=============================================================================
