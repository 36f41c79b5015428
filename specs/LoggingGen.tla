----------------------------- MODULE LoggingGen -----------------------------
(* Histories of configurations of three nested namespaces and requests for   *)
(* loggers, as the implementation works: a tree of loggers that holds the     *)
(* loggers that were requested or configured, where a configuration wipes the *)
(* properties, is cascaded over the tree, and is propagated to descendants.   *)
(* Invariant: what every logger has is what the configuration means for it.   *)
EXTENDS Logging, TLC
CONSTANT Most
VARIABLES m, tree, h
Namespaces == {<<>>, <<"a">>, <<"a", "b">>}
Name(n) == IF n = <<>> THEN "." ELSE IF n = <<"a">> THEN "a" ELSE "a.b"
Fmt == [x \in {"format"} |-> <<PERCENT, 109, 101, 115, 115, 97, 103, 101>>]
P(n) == [x \in {n} |-> <<114, 101, 99, 58, 49>>]
L(v) == [x \in {"level"} |-> LevelText[v]]
Options == << Empty, L("debug"), Over(L("error"), P("stream")), P("info-stream"), Over(P("error-stream"), P("trace-stream")), [x \in {"flush"} |-> False] >>
Texts == << "", ";level=debug", ";level=error;stream=rec:1", ";info-stream=rec:1", ";error-stream=rec:1;trace-stream=rec:1", ";flush=false" >>
(* The tree: namespace -> properties.                                         *)
Cascade(t, c) == [n \in DOMAIN t \cup DOMAIN c |->
   IF n \notin DOMAIN t THEN c[n] ELSE IF n \notin DOMAIN c THEN t[n]
   ELSE Over(c[n], IF Streams(c[n]) = {} THEN t[n] ELSE Restrict(t[n], DOMAIN t[n] \ StreamNames))]
Parents(n) == {SubSeq(n, 1, i) : i \in 0 .. Len(n) - 1}
Close(t) == [n \in DOMAIN t \cup UNION {Parents(x) : x \in DOMAIN t} |-> IF n \in DOMAIN t THEN t[n] ELSE Empty]
\* Properties come down from the nearest ancestor first.
RECURSIVE Down(_, _, _)
Down(t, p, n) == IF n = <<>> THEN p ELSE LET q == SubSeq(n, 1, Len(n) - 1) IN Down(t, Inherit(p, t[q]), q)
Propagate(t) == [n \in DOMAIN t |-> Down(t, t[n], n)]
Fresh(c) == Propagate(Cascade([x \in {<<>>} |-> Default], Close(c)))
Wiped(t) == [n \in DOMAIN t |-> Empty]
Init == m = [x \in {} |-> Empty] /\ tree = Fresh([x \in {<<>>} |-> Empty]) /\ h = <<>>
Configure == \E i, j, k \in 1 .. Len(Options) :
   LET c == [x \in {<<>>, <<"a">>, <<"a", "b">>} |-> Options[IF x = <<>> THEN i ELSE IF x = <<"a">> THEN j ELSE k]]
       used == [x \in {y \in DOMAIN c : DOMAIN c[y] # {}} |-> c[x]] IN
   /\ m' = used
   /\ tree' = Propagate(Cascade(Wiped(tree), Fresh(used)))
   /\ h' = Append(h, "conf equals  .;format=%25message" \o Texts[i] \o (IF j = 1 THEN "" ELSE " a" \o Texts[j]) \o (IF k = 1 THEN "" ELSE " a.b" \o Texts[k]) \o "|st")
\* A logger that is requested is made with its missing ancestors, each as a copy of its parent.
RECURSIVE Make(_, _)
Make(t, n) == IF n \in DOMAIN t THEN t ELSE LET u == Make(t, SubSeq(n, 1, Len(n) - 1)) IN Over(u, [x \in {n} |-> u[SubSeq(n, 1, Len(n) - 1)]])
Get == \E n \in {<<"a">>, <<"a", "b">>, <<"a", "b", "c">>} :
   /\ tree' = Make(tree, n) /\ h' = Append(h, "get " \o (IF n = <<"a">> THEN "a" ELSE IF n = <<"a", "b">> THEN "a.b" ELSE "a.b.c")) /\ UNCHANGED m
Step == Len(h) < Most /\ (Configure \/ Get)
RECURSIVE Text(_)
Text(x) == IF x = <<>> THEN "" ELSE "|" \o Head(x) \o Text(Tail(x))
Emit == PrintT(<<"SCRIPT", "get a.b.c.d|get ." \o Text(h') \o "|get a.b|st|log 3 debug c x|log 3 error c x|log 1 trace c x|log 2 info c x|log 3 warn lc y">>)
Spec == Init /\ [][Step]_<<m, tree, h>>
Means == \A n \in DOMAIN tree : tree[n] = Effective(m, n)
=============================================================================
