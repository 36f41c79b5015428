---------------------------- MODULE LoggingTrace ----------------------------
EXTENDS Logging, Json, TLC, IOUtils
Traces == ndJsonDeserialize(IOEnv.VT_TRACES)
\* m: the configuration; made: the recording streams that exist; ls: the loggers that were
\* obtained; lock; thread: its name; files: what was written to each file, and how much of
\* it was flushed.
VARIABLES ti, l, m, made, ls, lock, thread, files
vars == <<ti, l, m, made, ls, lock, thread, files>>
Tr == Traces[ti]
Ev == Tr.ev
X == Ev[l]
Init == /\ ti \in 1 .. Len(Traces) /\ l = 1 /\ m = [x \in {} |-> Empty] /\ made = {} /\ ls = <<>> /\ lock = "no"
        /\ thread = <<109, 97, 105, 110>> /\ files = [x \in {} |-> [w |-> <<>>, f |-> 0]]
Is(o) == l <= Len(Ev) /\ X.op = o /\ l' = l + 1 /\ UNCHANGED ti
IsRec(u) == StartsAt(u, 1, <<114, 101, 99>>)
IsFile(u) == StartsAt(u, 1, <<102, 105, 108, 101, 58>>)
Range(s) == {s[i] : i \in 1 .. Len(s)}
Macros == X.ph \o << <<<<117, 115, 101, 114, 46, 104, 111, 109, 101>>, X.home>>, <<<<101, 120, 101, 99, 117, 116, 97, 98, 108, 101>>, X.exe>> >>
Expanded == [i \in 1 .. Len(X.conf) |-> <<X.conf[i][1], [k \in 1 .. Len(X.conf[i][2]) |-> <<X.conf[i][2][k][1], Expand(X.conf[i][2][k][2], Macros)>>]>>]
\* The streams of the namespaces of the configuration and of the loggers are created, each once.
Ancestors(ns) == {SubSeq(ns, 1, i) : i \in 0 .. Len(ns)}
Nodes(c) == {<<>>} \cup UNION {Ancestors(n) : n \in DOMAIN c \cup Range(ls)}
Recs(c) == {u \in UNION {AllStreams(Effective(c, n)) : n \in Nodes(c)} : IsRec(u)}
Made(c) == /\ Range(X.made) = Recs(c) \ made /\ Len(X.made) = Cardinality(Recs(c) \ made)
           /\ made' = made \cup Recs(c)
NothingMade == X.made = <<>> /\ UNCHANGED made
AllFlushed == files' = [u \in DOMAIN files |-> [files[u] EXCEPT !.f = Len(files[u].w)]]
Locked == lock # "no" /\ X.res = (IF lock = "noisy" THEN "LoggingConfigurationException" ELSE "ok") /\ NothingMade /\ UNCHANGED <<m, files>>
Configure(c) == lock = "no" /\ X.res = "ok" /\ m' = c /\ Made(c) /\ AllFlushed
Conf == /\ Is("conf") /\ UNCHANGED <<ls, lock, thread>>
        /\ (Locked \/ Configure(Map([x \in {} |-> Empty], Expanded)))
Reset == Is("reset") /\ UNCHANGED <<ls, lock, thread>> /\ (Locked \/ Configure([x \in {} |-> Empty]))
\* A configuration that cannot be parsed changes nothing.
Raw == /\ Is("raw") /\ UNCHANGED <<ls, lock, thread>>
       /\ (Locked \/ (lock = "no" /\ X.res # "ok" /\ NothingMade /\ UNCHANGED m /\ AllFlushed))
Lock == Is("lock") /\ lock' = (IF X.noisy \/ lock = "noisy" THEN "noisy" ELSE "quiet") /\ UNCHANGED <<m, made, ls, thread, files>>
Thread == Is("thread") /\ thread' = X.name /\ UNCHANGED <<m, made, ls, lock, files>>
Get == /\ Is("get") /\ X.name = X.ns /\ ls' = Append(ls, X.ns)
       /\ X.same = (IF \E i \in 1 .. Len(ls) : ls[i] = X.ns THEN CHOOSE i \in 1 .. Len(ls) : ls[i] = X.ns /\ \A j \in 1 .. i - 1 : ls[j] # X.ns ELSE 0)
       /\ X.global = (X.ns = <<>>)
       /\ NothingMade /\ UNCHANGED <<m, lock, thread, files>>
State(s, ns) == LET p == Effective(m, ns) IN
   /\ s.level = Level(p) /\ s.flushes = Flushes(p)
   /\ s.enabled = [i \in 1 .. 5 |-> IF Enabled(p, i) THEN "yes" ELSE "no"]
   /\ {<<s.props[i][1], s.props[i][2]>> : i \in 1 .. Len(s.props)} = {<<n, p[n]>> : n \in DOMAIN p}
   /\ Len(s.props) = Cardinality(DOMAIN p)
St == /\ Is("st") /\ UNCHANGED <<m, made, ls, lock, thread, files>>
      /\ Len(X.loggers) = Len(ls) /\ \A i \in 1 .. Len(ls) : State(X.loggers[i], ls[i])
Function == X.how \in {"f", "lf", "gf", "glf"}
Log == /\ Is("log") /\ X.res = "ok" /\ UNCHANGED <<m, made, ls, lock, thread>>
       /\ LET ns == ls[X.i]  p == Effective(m, ns)  i == LevelNumber(X.level)  u == StreamOf(p, i)
              x(t) == [ids |-> X.ids, level |-> X.level, thread |-> IF thread = <<>> THEN X.tid ELSE thread, loc |-> X.loc,
                       msg |-> IF Function THEN X.msg ELSE Message(X.msg, X.ps), time |-> t]
              lines == {Line(Unquote(p["format"]), 1, x(X.ts[k])) : k \in 1 .. Len(X.ts)} IN
          IF X.level = "none" THEN X.out = <<>> /\ X.fl = <<>> /\ UNCHANGED files
          ELSE IF ~Enabled(p, i) THEN X.out = <<>> /\ X.fl = <<>> /\ X.evals = 0 /\ UNCHANGED files
          ELSE /\ X.evals = (IF Function THEN 1 ELSE 0)
               /\ X.fl = (IF IsRec(u) /\ Flushes(p) THEN <<u>> ELSE <<>>)
               /\ IF IsFile(u) THEN /\ X.out = <<>>
                                    /\ LET old == IF u \in DOMAIN files THEN files[u] ELSE [w |-> <<>>, f |-> 0]
                                           w == Append(old.w, lines) IN
                                       files' = Over([y \in {u} |-> [w |-> w, f |-> IF Flushes(p) THEN Len(w) ELSE old.f]], files)
                  ELSE /\ \E t \in lines : X.out = << <<u, t>> >>
                       /\ UNCHANGED files
LoggerFlush == /\ Is("lflush") /\ X.res = "ok" /\ UNCHANGED <<m, made, ls, lock, thread>>
               /\ LET us == AllStreams(Effective(m, ls[X.i]))  rs == {u \in us : IsRec(u)} IN
                  /\ Range(X.fl) = rs /\ Len(X.fl) = Cardinality(rs)
                  /\ files' = [u \in DOMAIN files |-> IF u \in us THEN [files[u] EXCEPT !.f = Len(files[u].w)] ELSE files[u]]
FlushAll == /\ Is("fall") /\ X.res = "ok" /\ UNCHANGED <<m, made, ls, lock, thread>>
            /\ Range(X.fl) = made /\ Len(X.fl) = Cardinality(made) /\ AllFlushed
\* Files hold the flushed lines, and then maybe more of what was written.
RECURSIVE Lines(_)
Lines(s) == IF ~\E i \in 1 .. Len(s) : s[i] = 10 THEN <<>>
            ELSE LET i == CHOOSE i \in 1 .. Len(s) : s[i] = 10 /\ \A j \in 1 .. i - 1 : s[j] # 10 IN <<SubSeq(s, 1, i)>> \o Lines(SubSeq(s, i + 1, Len(s)))
Holds(c, f) == LET k == Lines(c) IN Len(k) >= f.f /\ Len(k) <= Len(f.w) /\ \A i \in 1 .. Len(k) : k[i] \in f.w[i]
Peek == /\ Is("peek") /\ UNCHANGED <<m, made, ls, lock, thread, files>>
        /\ \A i \in 1 .. Len(X.files) : LET u == X.files[i][1] IN
              IF u \in DOMAIN files THEN Holds(X.files[i][2], files[u]) ELSE X.files[i][2] = <<>>
\* A file that cannot be opened: only that the process goes on.
BadFile == Is("badfile") /\ UNCHANGED <<m, made, ls, lock, thread, files>>
Next == \/ BadFile \/ Conf \/ Reset \/ Raw \/ Lock \/ Thread \/ Get \/ St \/ Log \/ LoggerFlush \/ FlushAll \/ Peek
        \/ l = Len(Ev) + 1 /\ Tr.end \in {"done", "part"} /\ PrintT(<<"ACC", ti>>) /\ l' = l + 1 /\ UNCHANGED <<ti, m, made, ls, lock, thread, files>>
Spec == Init /\ [][Next]_vars
=============================================================================
