---------------------------- MODULE Collections ----------------------------
(* Containers of numbers as sequences, collections of entries <<key, value>>  *)
(* that are put, texts as lines, and pointers made of arguments.              *)
EXTENDS Integers, Sequences, FiniteSets
RECURSIVE Flat(_), Put(_, _, _, _), LinesFrom(_, _)
Flat(ss) == IF ss = <<>> THEN <<>> ELSE Head(ss) \o Flat(Tail(ss))
Mapped(s) == [i \in 1 .. Len(s) |-> 2 * s[i] + 1]
Elements(s) == {s[i] : i \in 1 .. Len(s)}
\* The first that matches is replaced (or has the new value added); if none does, the new one is put at the end.
Matches(mode, e, x) == IF mode = "whole" THEN e = x ELSE e[1] = x[1]
Put(s, x, mode, how) ==
   LET at == {i \in 1 .. Len(s) : Matches(mode, s[i], x)} IN
   IF at = {} THEN Append(s, x)
   ELSE LET i == CHOOSE i \in at : \A j \in at : i <= j IN
        [s EXCEPT ![i] = IF how = "add" THEN <<s[i][1], s[i][2] + x[2]>> ELSE x]
\* What is between the line breaks; a line break at the end ends the last line.
LF == 10
LinesFrom(s, line) == IF s = <<>> THEN (IF line = <<>> THEN <<>> ELSE <<line>>)
                      ELSE IF Head(s) = LF THEN <<line>> \o LinesFrom(Tail(s), <<>>) ELSE LinesFrom(Tail(s), Append(line, Head(s)))
Lines(s) == LinesFrom(s, <<>>)
\* A function that makes a vector of its argument: as many as it says.
Many(xs) == Flat([i \in 1 .. Len(xs) |-> [k \in 1 .. xs[i] |-> 10 * xs[i] + k]])
=============================================================================
