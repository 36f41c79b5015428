--------------------------- MODULE CommandLineGen ---------------------------
(* Every list of up to Most of the arguments below, for every style and kind  *)
(* of final value, for a parser with two options with values and two without. *)
EXTENDS CommandLine, TLC
CONSTANT Most
VARIABLES st, fin, h
Words == <<<<DASH, 107>>, <<DASH, DASH, 107, 107>>, <<DASH, 102>>, <<107, EQ, 118>>, <<107, 107, EQ>>, <<102>>, <<107>>, <<118>>, <<DASH, 117>>, <<DASH, 104>>, <<117, EQ, 118, EQ>>, <<DASH, DASH>>>>
Names == <<"-k", "--kk", "-f", "k=v", "kk=", "f", "k", "v", "-u", "-h", "u=v=", "--">>
Config == [style |-> st, final |-> fin,
           options |-> {[key |-> 1, short |-> <<107>>, long |-> <<107, 107>>, value |-> TRUE, help |-> FALSE], [key |-> 2, short |-> <<102>>, long |-> <<>>, value |-> FALSE, help |-> FALSE],
                        [key |-> 3, short |-> <<104>>, long |-> <<104, 104>>, value |-> FALSE, help |-> TRUE]},
           switches |-> {<<<<107>>, 1>>, <<<<107, 107>>, 1>>, <<<<102>>, 2>>, <<<<104>>, 3>>, <<<<104, 104>>, 3>>}]
Init == h = <<>> /\ st \in {"space", "equals", "detect"} /\ fin \in {"no", "yes", "maybe"}
Step == Len(h) < Most /\ \E i \in 1 .. Len(Words) : h' = Append(h, i) /\ UNCHANGED <<st, fin>>
RECURSIVE Text(_)
Text(x) == IF x = <<>> THEN "" ELSE " " \o Names[Head(x)] \o Text(Tail(x))
Emit == PrintT(<<"SCRIPT", "new " \o st' \o "|opt 1 k kk 1 d|opt1 2 f 0 d|help 3 h hh d|final " \o fin' \o "|parse 1 app" \o Text(h') \o "|seen|parse 0|seen">>)
Spec == Init /\ [][Step]_<<st, fin, h>>
Res == Parse(Config, [i \in 1 .. Len(h) |-> Words[h[i]]])
\* A parse gives one value per option, and no more values than arguments.
Sound == LET q == Res IN q.r = {"ok"} =>
   /\ \A a, b \in q.vals : a[1] = b[1] => a = b
   /\ Cardinality(q.vals) + Len(q.finals) <= Len(h)
   /\ fin = "no" => q.finals = <<>>
   /\ (fin = "yes" /\ q.finals = <<>>) => \E v \in q.vals : v[1] = 3
\* Detecting the style is the same as using the style that was detected.
Detect == st = "detect" /\ h # <<>> => LET a == [i \in 1 .. Len(h) |-> Words[h[i]]] IN Res = Parse([Config EXCEPT !.style = Style(Config, a)], a)
=============================================================================
