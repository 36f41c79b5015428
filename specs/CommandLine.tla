---------------------------- MODULE CommandLine ----------------------------
(* The command line parser: what a list of arguments means to a parser with  *)
(* given options.  Texts are sequences of bytes.                              *)
EXTENDS Numbers
EQ == 61
Space(c) == c = 32
RECURSIVE LTrim(_)
LTrim(s) == IF s # <<>> /\ Space(Head(s)) THEN LTrim(Tail(s)) ELSE s
RECURSIVE RTrim(_)
RTrim(s) == IF s # <<>> /\ Space(s[Len(s)]) THEN RTrim(SubSeq(s, 1, Len(s) - 1)) ELSE s
Trim(s) == LTrim(RTrim(s))
\* Options: set of [key, short, long, value, help]; switches: set of <<name, key>>.
Known(c, s) == \E p \in c.switches : p[1] = s
KeyOf(c, s) == (CHOOSE p \in c.switches : p[1] = s)[2]
OptOf(c, k) == CHOOSE o \in c.options : o.key = k
\* Result of parsing: r is "ok", "open" (either way), or the errors; vals: set of <<key, value>>.
R(e, vals, finals) == [r |-> e, vals |-> vals, finals |-> finals]
Fails(errors) == R(errors, {}, <<>>)
Open == R({"open"}, {}, <<>>)
Put(vals, k, v) == {p \in vals : p[1] # k} \cup {<<k, v>>}
Final(c, m) == c.final = m
RECURSIVE Space1(_, _, _, _, _, _)
Space1(c, a, i, vals, finals, help) ==
   IF i > Len(a) THEN
      IF Final(c, "yes") /\ finals = <<>> THEN (IF help THEN R({"ok"}, vals, finals) ELSE Fails({"MissingFinalValueException"}))
      ELSE R({"ok"}, vals, finals)
   ELSE LET t == Trim(a[i]) IN
      IF At(t, 1) # DASH THEN
         (IF Final(c, "no") THEN Fails({"IllegalArgumentException"}) ELSE Space1(c, a, i + 1, vals, Append(finals, t), help))
      ELSE LET long == At(t, 2) = DASH
               name == SubSeq(t, IF long THEN 3 ELSE 2, Len(t)) IN
         IF ~Known(c, name) THEN Fails({"OptionNotFoundException"})
         ELSE LET k == KeyOf(c, name)  o == OptOf(c, k) IN
            \* A full switch with one dash, or an abbreviated one with two.
            IF ~(IF long THEN name = o.long ELSE name = o.short) THEN Open
            ELSE IF ~o.value THEN Space1(c, a, i + 1, Put(vals, k, <<>>), finals, help \/ o.help)
            ELSE IF i = Len(a) THEN Fails({"MissingOptionValueException"} \cup (IF Final(c, "yes") /\ finals = <<>> THEN {"MissingFinalValueException"} ELSE {}))
            ELSE IF Final(c, "yes") /\ finals = <<>> /\ i + 1 = Len(a) THEN (IF help THEN Open ELSE Fails({"MissingFinalValueException", "MissingOptionValueException"}))
            ELSE Space1(c, a, i + 2, Put(vals, k, Trim(a[i + 1])), finals, help)
EqAt(s) == IF \E i \in 1 .. Len(s) : s[i] = EQ THEN CHOOSE i \in 1 .. Len(s) : s[i] = EQ /\ \A j \in 1 .. i - 1 : s[j] # EQ ELSE 0
RECURSIVE Equals1(_, _, _, _)
Equals1(c, a, i, vals) ==
   LET last == IF Final(c, "yes") THEN Len(a) - 1 ELSE Len(a) IN
   IF i > last THEN
      IF ~Final(c, "yes") THEN R({"ok"}, vals, <<>>)
      ELSE LET f == a[Len(a)]  e == EqAt(f)  name == Trim(SubSeq(f, 1, e - 1)) IN
           IF e = 0 THEN R({"ok"}, vals, <<Trim(f)>>)
           ELSE IF Known(c, name) /\ OptOf(c, KeyOf(c, name)).value THEN Fails({"MissingFinalValueException"})
           ELSE Open
   ELSE LET e == EqAt(a[i])
            name == Trim(IF e = 0 THEN a[i] ELSE SubSeq(a[i], 1, e - 1)) IN
      IF ~Known(c, name) THEN (IF Final(c, "maybe") /\ i = Len(a) /\ e = 0 THEN R({"ok"}, vals, <<name>>)
                               ELSE Fails({"OptionNotFoundException"}))
      ELSE LET k == KeyOf(c, name)  o == OptOf(c, k) IN
         IF o.value THEN
            (IF e # 0 THEN Equals1(c, a, i + 1, Put(vals, k, Trim(SubSeq(a[i], e + 1, Len(a[i])))))
             \* A switch without its value: the last one has none; otherwise it is left open.
             ELSE IF i = last /\ ~(Final(c, "yes") /\ EqAt(a[Len(a)]) # 0)
                  THEN Fails({"MissingOptionValueException"} \cup (IF Final(c, "yes") THEN {"MissingFinalValueException"} ELSE {}))
             ELSE Open)
         ELSE IF e # 0 THEN Open ELSE Equals1(c, a, i + 1, Put(vals, k, <<>>))
Style(c, a) == IF c.style # "detect" THEN c.style
               ELSE IF Final(c, "yes") /\ Len(a) = 1 THEN "space"
               ELSE IF At(a[1], 1) = DASH THEN "space" ELSE "equals"
Parse(c, a) == IF a = <<>> THEN (IF Final(c, "yes") THEN Fails({"MissingFinalValueException"}) ELSE R({"ok"}, {}, <<>>))
               ELSE IF Style(c, a) = "space" THEN Space1(c, a, 1, {}, <<>>, FALSE) ELSE Equals1(c, a, 1, {})
-----------------------------------------------------------------------------
(* The help text.                                                            *)
Spaces(n) == [i \in 1 .. n |-> 32]
Switches(o, st) == LET d == st # "equals" IN
   (IF d THEN <<DASH>> ELSE <<>>) \o o.short \o (IF o.long = <<>> THEN <<>> ELSE <<44, 32>> \o (IF d THEN <<DASH, DASH>> ELSE <<>>) \o o.long)
Max(S) == CHOOSE x \in S : \A y \in S : y <= x
RECURSIVE Lines(_, _, _)
Lines(doc, w, cont) == IF Len(doc) <= w THEN doc \o <<10>>
                       ELSE SubSeq(doc, 1, w) \o <<10>> \o cont \o Lines(SubSeq(doc, w + 1, Len(doc)), w, cont)
RECURSIVE HelpOf(_, _, _, _, _)
HelpOf(os, st, indent, w, width) ==
   IF os = {} THEN <<>>
   ELSE LET o == CHOOSE x \in os : \A y \in os : x.key <= y.key  sw == Switches(o, st) IN
        Spaces(indent) \o sw \o Spaces(width - Len(sw)) \o <<32, DASH, 32>> \o Lines(o.doc, w, Spaces(indent + 3 + width))
        \o HelpOf(os \ {o}, st, indent, w, width)
Help(c, indent, total, over) ==
   LET st == IF over # "detect" THEN over ELSE c.style
       width == Max({0} \cup {Len(Switches(o, st)) : o \in c.options})
   IN HelpOf(c.options, st, indent, IF total < width + 20 THEN width + 20 ELSE total, width)
=============================================================================
