--------------------------- MODULE CollectionsGen ---------------------------
EXTENDS Collections, TLC
CONSTANTS Most
VARIABLES mode, s, kv
Init == mode \in {"numbers", "text", "entries"} /\ s = <<>> /\ kv = <<>>
RECURSIVE Words(_)
Words(x) == IF x = <<>> THEN "" ELSE ToString(Head(x)) \o (IF Len(x) > 1 THEN "." ELSE "") \o Words(Tail(x))
W(x) == IF x = <<>> THEN "-" ELSE Words(x)
Short == UNION {[1 .. n -> {1, 2}] : n \in 0 .. 2}
Step == /\ mode # "entries" /\ Len(s) < Most /\ UNCHANGED <<mode, kv>>
        /\ \E x \in (IF mode = "numbers" THEN {1, 2, 3} ELSE {97, 10, 233}) : s' = Append(s, x)
Ways == {"whole", "key"} \X {"replace", "add"}
PutStep == /\ mode = "entries" /\ Len(kv) < 3 /\ UNCHANGED <<mode, s>>
           /\ \E k \in {1, 2}, v \in {1, 2}, w \in Ways : kv' = Put(kv, <<k, v>>, w[1], w[2]) /\ kv'[1][2] < 4 /\ (Len(kv') > 1 => kv'[2][2] < 4)
Next == \/ Step
        \/ PutStep
RECURSIVE Entries(_)
Entries(e) == IF e = <<>> THEN "" ELSE "|entry " \o ToString(Head(e)[1]) \o " " \o ToString(Head(e)[2]) \o Entries(Tail(e))
RECURSIVE Puts(_, _)
Puts(e, W_) == IF W_ = {} THEN "" ELSE LET w == CHOOSE w \in W_ : TRUE IN
   "|clear" \o Entries(e) \o "|put " \o ToString(w[1]) \o " " \o ToString(w[2]) \o " " \o w[3] \o " " \o w[4] \o Puts(e, W_ \ {w})
RECURSIVE Others(_, _)
Others(x, S) == IF S = {} THEN "" ELSE LET y == CHOOSE y \in S : TRUE IN
   "|init " \o W(x) \o "|append " \o W(y) \o "|concat " \o W(x) \o " " \o W(y) \o " " \o W(<<3>>) \o "|contains " \o W(x) \o " " \o W(y) \o Others(x, S \ {y})
Line == CASE mode = "numbers" -> "map " \o W(s') \o "|pointers " \o W(s') \o "|push " \o W(s') \o Others(s', Short)
          [] mode = "text" -> "lines " \o W(s') \o "|consume " \o W(s') \o " - " \o W(<<97>>) \o "|consume " \o W(<<98>>) \o " " \o W(s') \o " " \o W(s')
          [] OTHER -> "clear" \o Puts(kv', ({1, 2} \X {1, 2} \X {"whole", "key"} \X {"replace", "add"}))
Emit == PrintT(<<"SCRIPT", Line>>)
Spec == Init /\ [][Next]_<<mode, s, kv>>
Keys(e) == {e[i][1] : i \in 1 .. Len(e)}
Laws ==
   /\ mode = "numbers" => /\ Len(Mapped(s)) = Len(s)
                          /\ \A t \in Short : Flat(<<s, t>>) = s \o t /\ Elements(s \o t) = Elements(s) \cup Elements(t)
   /\ mode = "text" => LET ls == Lines(s) IN
         /\ \A i \in 1 .. Len(ls) : LF \notin Elements(ls[i])
         \* The lines joined are the text, but for its last line break.
         /\ LET j == Flat([i \in 1 .. Len(ls) |-> IF i = Len(ls) THEN ls[i] ELSE Append(ls[i], LF)]) IN
            s = j \/ s = Append(j, LF)
   /\ mode = "entries" => \A k \in {1, 2}, v \in {1, 2}, w \in Ways :
         LET p == Put(kv, <<k, v>>, w[1], w[2]) IN
         /\ Len(p) \in {Len(kv), Len(kv) + 1} /\ Keys(p) = Keys(kv) \cup {k}
         /\ w[1] = "key" => ((k \in Keys(kv)) <=> Len(p) = Len(kv))
         /\ Cardinality({i \in 1 .. Len(kv) : p[i] # kv[i]}) <= 1
=============================================================================
