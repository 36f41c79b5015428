------------------------------ MODULE UrlData ------------------------------
(* Texts that are sent as URL encoded data, and the media types of paths.     *)
(*                                                                            *)
(* Bytes and characters are numbers, texts are sequences of them.             *)
(*   Decodings(s, v)   what decoding the bytes s may give; one text, unless   *)
(*                     some '%' in it is not followed by two hexadecimal      *)
(*                     digits: how much of such an error is ignored is open   *)
(*   Wrong(s, v)       s has an error: such a '%', or a run of encoded bytes  *)
(*                     that is not UTF-8, when that is checked (v)            *)
(*   Encode(s, f)      the bytes s, encoded by f                              *)
(*   Params(s)         the pieces between '&', each split at its '='s         *)
(*   MediaType(t, p)   the media type that the table t has for the path p     *)
EXTENDS Naturals, Integers, Sequences, FiniteSets
PERCENT == 37  PLUSSIGN == 43  AMP == 38  EQUALS == 61  DOT == 46  BLANK == 32
Hex(c) == c \in 48 .. 57 \/ c \in 65 .. 70 \/ c \in 97 .. 102
Digit(c) == IF c <= 57 THEN c - 48 ELSE IF c <= 70 THEN c - 55 ELSE c - 87
\* A '%' with its two digits is at i.
Escape(s, i) == s[i] = PERCENT /\ i + 2 <= Len(s) /\ Hex(s[i + 1]) /\ Hex(s[i + 2])
ByteAt(s, i) == 16 * Digit(s[i + 1]) + Digit(s[i + 2])
Stray(s, i) == s[i] = PERCENT /\ ~Escape(s, i)
Strays(s) == {i \in 1 .. Len(s) : Stray(s, i)}
----------------------------------------------------------------------------
\* UTF-8, as RFC 3629 has it.
Follows(s, i) == i <= Len(s) /\ s[i] \in 128 .. 191
RECURSIVE Utf8From(_, _)
Utf8From(s, i) ==
   IF i > Len(s) THEN TRUE
   ELSE LET c == s[i] IN
      IF c < 128 THEN Utf8From(s, i + 1)
      ELSE IF c \in 194 .. 223 THEN Follows(s, i + 1) /\ Utf8From(s, i + 2)
      ELSE IF c \in 224 .. 239 THEN /\ Follows(s, i + 1) /\ Follows(s, i + 2)
                                    /\ (c = 224 => s[i + 1] >= 160) /\ (c = 237 => s[i + 1] < 160)
                                    /\ Utf8From(s, i + 3)
      ELSE IF c \in 240 .. 244 THEN /\ Follows(s, i + 1) /\ Follows(s, i + 2) /\ Follows(s, i + 3)
                                    /\ (c = 240 => s[i + 1] >= 144) /\ (c = 244 => s[i + 1] < 144)
                                    /\ Utf8From(s, i + 4)
      ELSE FALSE
IsUtf8(s) == Utf8From(s, 1)
----------------------------------------------------------------------------
\* A run of encoded bytes is taken as a whole, or ignored as a whole.
Kept(run, v) == IF v /\ ~IsUtf8(run) THEN <<>> ELSE run
\* What of an error is ignored: the '%', and at most two characters that are no '%' themselves.
Skips(s, i) == {k \in 1 .. 3 : i + k <= Len(s) + 1 /\ \A j \in 1 .. k - 1 : s[i + j] # PERCENT}
RECURSIVE Rest(_, _, _, _)
Rest(s, i, run, v) ==
   IF i > Len(s) THEN {Kept(run, v)}
   ELSE IF Escape(s, i) THEN Rest(s, i + 3, Append(run, ByteAt(s, i)), v)
   ELSE IF s[i] = PERCENT THEN
           UNION {Rest(s, i + k, run, v) \cup {Kept(run, v) \o t : t \in Rest(s, i + k, <<>>, v)} : k \in Skips(s, i)}
   ELSE {Append(Kept(run, v), IF s[i] = PLUSSIGN THEN BLANK ELSE s[i]) \o t : t \in Rest(s, i + 1, <<>>, v)}
Decodings(s, v) == Rest(s, 1, <<>>, v)
\* The runs of encoded bytes, when no '%' strays.
RECURSIVE Runs(_, _, _)
Runs(s, i, run) ==
   IF i > Len(s) THEN {run}
   ELSE IF Escape(s, i) THEN Runs(s, i + 3, Append(run, ByteAt(s, i)))
   ELSE {run} \cup Runs(s, i + 1, <<>>)
Wrong(s, v) == Strays(s) # {} \/ (v /\ \E r \in Runs(s, 1, <<>>) : ~IsUtf8(r))
----------------------------------------------------------------------------
HexDigit(n, upper) == IF n < 10 THEN 48 + n ELSE IF upper THEN 55 + n ELSE 87 + n
Escaped(c, upper) == <<PERCENT, HexDigit(c \div 16, upper), HexDigit(c % 16, upper)>>
Special(c) == c \in {PERCENT, PLUSSIGN, AMP, EQUALS} \/ c > 126 \/ c < 32
RECURSIVE Encode(_, _)
Encode(s, f) ==
   IF s = <<>> THEN <<>>
   ELSE (IF Head(s) = BLANK THEN (IF f.plus THEN <<PLUSSIGN>> ELSE Escaped(BLANK, f.upper))
         ELSE IF f.all \/ Special(Head(s)) THEN Escaped(Head(s), f.upper)
         ELSE <<Head(s)>>) \o Encode(Tail(s), f)
----------------------------------------------------------------------------
RECURSIVE Pieces(_, _, _)
Pieces(s, d, piece) ==
   IF s = <<>> THEN <<piece>>
   ELSE IF Head(s) = d THEN <<piece>> \o Pieces(Tail(s), d, <<>>)
   ELSE Pieces(Tail(s), d, Append(piece, Head(s)))
Split(s, d) == Pieces(s, d, <<>>)
Params(s) == LET a == SelectSeq(Split(s, AMP), LAMBDA p : p # <<>>) IN [i \in 1 .. Len(a) |-> Split(a[i], EQUALS)]
\* A key, and perhaps a value.
Plain(p) == Len(p) <= 2 /\ p[1] # <<>>
\* More than one '=', and something at all their sides.
Broken(p) == Len(p) > 2 /\ \A i \in 1 .. Len(p) : p[i] # <<>>
KeyOf(p) == p[1]
ValueOf(p) == IF Len(p) = 2 THEN p[2] ELSE <<>>
\* The map m, a sequence of keys and values, is what the plain parameters ps say; of some with one key, any may stay.
Says(m, ps) ==
   /\ \A i, j \in 1 .. Len(m) : i # j => m[i][1] # m[j][1]
   /\ {m[i][1] : i \in 1 .. Len(m)} = {ps[i][1] : i \in 1 .. Len(ps)}
   /\ \A i \in 1 .. Len(m) : \E j \in 1 .. Len(ps) : ps[j] = m[i]
----------------------------------------------------------------------------
LowerCase(s) == [i \in 1 .. Len(s) |-> IF s[i] \in 65 .. 90 THEN s[i] + 32 ELSE s[i]]
Dots(p) == {i \in 1 .. Len(p) : p[i] = DOT}
Extension(p) == LET d == CHOOSE i \in Dots(p) : \A j \in Dots(p) : j <= i IN LowerCase(SubSeq(p, d + 1, Len(p)))
\* Nothing, if the path has no extension, or one that the table does not have.
MediaType(t, p) ==
   IF Dots(p) = {} THEN <<>>
   ELSE LET e == Extension(p)
            h == {i \in 1 .. Len(t) : t[i][1] = e}
        IN IF h = {} THEN <<>> ELSE t[CHOOSE i \in h : TRUE][2]
=============================================================================
