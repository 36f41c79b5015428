------------------------------ MODULE Logging ------------------------------
(* The logging system: what a configuration of namespaces means for a logger *)
(* and what a message to a logger writes, to which stream.                    *)
(* Namespaces are sequences of identifiers; the texts are sequences of bytes. *)
EXTENDS Integers, Sequences, FiniteSets
Levels == <<"error", "warn", "info", "debug", "trace">>
LevelNumber(l) == IF l = "none" THEN 0 ELSE CHOOSE i \in 1 .. 5 : Levels[i] = l
StreamNames == {"stream", "error-stream", "warn-stream", "info-stream", "debug-stream", "trace-stream"}
OwnStream == <<"error-stream", "warn-stream", "info-stream", "debug-stream", "trace-stream">>
Lower(t) == [i \in 1 .. Len(t) |-> IF t[i] \in 65 .. 90 THEN t[i] + 32 ELSE t[i]]
LevelText == [l \in {"none", "error", "warn", "info", "debug", "trace"} |->
   CASE l = "none" -> <<110, 111, 110, 101>> [] l = "error" -> <<101, 114, 114, 111, 114>> [] l = "warn" -> <<119, 97, 114, 110>>
     [] l = "info" -> <<105, 110, 102, 111>> [] l = "debug" -> <<100, 101, 98, 117, 103>> [] OTHER -> <<116, 114, 97, 99, 101>>]
Upper(t) == [i \in 1 .. Len(t) |-> IF t[i] \in 97 .. 122 THEN t[i] - 32 ELSE t[i]]
False == <<102, 97, 108, 115, 101>>
Stdout == <<115, 116, 100, 111, 117, 116>>
Stderr == <<115, 116, 100, 101, 114, 114>>
QUOTE == 34  PERCENT == 37  LB == 123  RB == 125  DOT == 46
Unquote(t) == IF Len(t) > 1 /\ t[1] = QUOTE /\ t[Len(t)] = QUOTE THEN SubSeq(t, 2, Len(t) - 1) ELSE t
-----------------------------------------------------------------------------
(* Configuration.                                                             *)
Restrict(f, S) == [x \in S |-> f[x]]
Over(f, g) == [x \in DOMAIN f \cup DOMAIN g |-> IF x \in DOMAIN f THEN f[x] ELSE g[x]]
Streams(p) == DOMAIN p \cap StreamNames
\* The properties of a namespace over those of its parent: the stream options are inherited all or none.
Inherit(own, parent) == Over(own, IF Streams(own) = {} THEN parent ELSE Restrict(parent, DOMAIN parent \ StreamNames))
\* %Y-%m-%d %H:%M:%S [%thread] %LEVEL - %namespace - %message
DefaultFormat == <<37, 89, 45, 37, 109, 45, 37, 100, 32, 37, 72, 58, 37, 77, 58, 37, 83, 32, 91, 37, 116, 104, 114, 101, 97, 100, 93, 32, 37, 76, 69, 86, 69, 76, 32, 45, 32,
                   37, 110, 97, 109, 101, 115, 112, 97, 99, 101, 32, 45, 32, 37, 109, 101, 115, 115, 97, 103, 101>>
Default == [x \in {"level", "format", "warn-stream", "error-stream"} |->
   CASE x = "level" -> LevelText["info"] [] x = "format" -> DefaultFormat [] x = "warn-stream" -> Stdout [] OTHER -> Stderr]
Empty == [x \in {} |-> <<>>]
Own(m, ns) == IF ns \in DOMAIN m THEN m[ns] ELSE Empty
RECURSIVE Effective(_, _)
Effective(m, ns) == IF ns = <<>> THEN Inherit(Own(m, ns), Default)
                    ELSE Inherit(Own(m, ns), Effective(m, SubSeq(ns, 1, Len(ns) - 1)))
\* Entries <<namespace, <<name, value>> ...>> in order; later ones replace earlier ones.
RECURSIVE Put(_, _)
Put(p, es) == IF es = <<>> THEN p ELSE Put(Over([x \in {es[1][1]} |-> es[1][2]], p), Tail(es))
RECURSIVE Map(_, _)
Map(m, cs) == IF cs = <<>> THEN m
              ELSE LET c == Head(cs) IN Map(Over([x \in {c[1]} |-> Put(Own(m, c[1]), c[2])], m), Tail(cs))
Level(p) == CHOOSE l \in DOMAIN LevelText : LevelText[l] = Lower(p["level"])
Flushes(p) == ~("flush" \in DOMAIN p /\ Lower(p["flush"]) = False)
\* The option that decides the stream of a level: the level's own, the one for all, then the
\* nearest of the more severe levels, then the nearest of the less severe ones.
Decides(p, i) ==
   IF OwnStream[i] \in DOMAIN p THEN OwnStream[i]
   ELSE IF "stream" \in DOMAIN p THEN "stream"
   ELSE LET down == {j \in 1 .. i - 1 : OwnStream[j] \in DOMAIN p}  up == {j \in i + 1 .. 5 : OwnStream[j] \in DOMAIN p} IN
        IF down # {} THEN OwnStream[CHOOSE j \in down : \A k \in down : k <= j]
        ELSE OwnStream[CHOOSE j \in up : \A k \in up : j <= k]
StreamOf(p, i) == Unquote(p[Decides(p, i)])
AllStreams(p) == {StreamOf(p, i) : i \in 1 .. 5}
Enabled(p, i) == i <= LevelNumber(Level(p))
-----------------------------------------------------------------------------
(* Macro placeholders: m is a sequence of <<name, value>>.                    *)
StartsAt(t, i, x) == i + Len(x) - 1 <= Len(t) /\ \A k \in 1 .. Len(x) : t[i + k - 1] = x[k]
RECURSIVE ReplaceFrom(_, _, _, _)
ReplaceFrom(t, i, x, y) == IF i > Len(t) THEN <<>>
   ELSE IF StartsAt(t, i, x) THEN y \o ReplaceFrom(t, i + Len(x), x, y) ELSE <<t[i]>> \o ReplaceFrom(t, i + 1, x, y)
RECURSIVE Expand(_, _)
Expand(t, m) == IF m = <<>> THEN t ELSE Expand(ReplaceFrom(t, 1, <<36, LB>> \o m[1][1] \o <<RB>>, m[1][2]), Tail(m))
-----------------------------------------------------------------------------
(* Messages.                                                                  *)
\* Each {} is replaced by the next parameter; missing ones are shown as ????.
RECURSIVE Fill(_, _, _)
Fill(t, i, ps) == IF i > Len(t) THEN <<>>
   ELSE IF StartsAt(t, i, <<LB, RB>>) THEN (IF ps = <<>> THEN <<63, 63, 63, 63>> ELSE Head(ps)) \o Fill(t, i + 2, IF ps = <<>> THEN ps ELSE Tail(ps))
   ELSE <<t[i]>> \o Fill(t, i + 1, ps)
Message(t, ps) == IF ps = <<>> THEN t ELSE Fill(t, 1, ps)
Specifiers == << <<109, 101, 115, 115, 97, 103, 101>>, <<110, 97, 109, 101, 115, 112, 97, 99, 101>>, <<102, 105, 108, 101, 110, 97, 109, 101>>, <<102, 105, 108, 101, 112, 97, 116, 104>>,
   <<116, 104, 114, 101, 97, 100>>, <<76, 69, 86, 69, 76>>, <<108, 101, 118, 101, 108>>, <<110, 115>>, <<89>>, <<121>>, <<109>>, <<100>>, <<72>>, <<77>>, <<83>>, <<PERCENT>>, <<QUOTE>> >>
Kinds == << "message", "namespace", "filename", "filepath", "thread", "LEVEL", "level", "ns", "%Y", "%y", "%m", "%d", "%H", "%M", "%S", "%", "q" >>
SpecAt(f, i) == {k \in 1 .. Len(Kinds) : f[i] = PERCENT /\ StartsAt(f, i + 1, Specifiers[k])}
RECURSIVE Join(_)
Join(ids) == IF ids = <<>> THEN <<>> ELSE IF Len(ids) = 1 THEN ids[1] ELSE ids[1] \o <<DOT>> \o Join(Tail(ids))
Abbreviation(ids) == Join([i \in 1 .. Len(ids) |-> IF i = Len(ids) THEN ids[i] ELSE SubSeq(ids[i], 1, 1)])
RECURSIVE After(_)
After(t) == IF \E i \in 1 .. Len(t) : t[i] = 47 THEN After(Tail(t)) ELSE t
\* x: ids (of the namespace), level, thread, loc, msg, time.
Item(k, x) == CASE k = "message" -> x.msg [] k = "namespace" -> Join(x.ids) [] k = "ns" -> Abbreviation(x.ids)
   [] k = "filename" -> After(x.loc) [] k = "filepath" -> x.loc [] k = "thread" -> x.thread
   [] k = "LEVEL" -> Upper(LevelText[x.level]) [] k = "level" -> LevelText[x.level]
   [] k = "%S" -> x.time["%S"] \o <<DOT, 35>> [] k = "%" -> <<PERCENT>> [] k = "q" -> <<QUOTE>> [] OTHER -> x.time[k]
RECURSIVE Line(_, _, _)
Line(f, i, x) == IF i > Len(f) THEN <<10>>
   ELSE LET ks == SpecAt(f, i) IN
        IF ks = {} THEN <<f[i]>> \o Line(f, i + 1, x)
        ELSE LET k == CHOOSE k \in ks : \A j \in ks : Len(Specifiers[j]) <= Len(Specifiers[k]) IN Item(Kinds[k], x) \o Line(f, i + 1 + Len(Specifiers[k]), x)
=============================================================================
