---------------------------- MODULE LogThreads ----------------------------
(* Logging from several threads.  conf: the configurations, each one a       *)
(* record of what holds for each logger.  live: the calls of configure whose *)
(* configuration may be in force; an operation may follow, for each of level,*)
(* format, stream and flush, any configuration in force at some time of it.  *)
EXTENDS Integers, Sequences, FiniteSets
VARIABLES conf, calls, live, op, ids, text, vis
tvars == <<conf, calls, live, op, ids, text, vis>>
Levels == <<"error", "warn", "info", "debug", "trace">>
Idle == [o |-> "idle"]
\* calls: [c |-> index of the configuration, done |-> BOOLEAN, over |-> the calls that had returned before it started]
TInit(cs, T, us) ==
   /\ conf = cs /\ calls = <<[c |-> 1, done |-> TRUE, over |-> {}]>> /\ live = {1}
   /\ op = [t \in T |-> Idle] /\ ids = <<>>
   /\ text = [u \in us |-> <<>>] /\ vis = [u \in us |-> 0]
Cands(k) == {calls[x].c : x \in k}
Eff(c, n) == conf[c][n]
Start(t, rec) == op[t] = Idle /\ op' = [op EXCEPT ![t] = rec] /\ UNCHANGED <<conf, calls, live, ids, text, vis>>
\* configure
ConfCall(t, c) ==
   LET k == Len(calls) + 1 IN
   /\ op[t] = Idle
   /\ calls' = Append(calls, [c |-> c, done |-> FALSE, over |-> {x \in 1 .. Len(calls) : calls[x].done}])
   /\ live' = live \cup {k}
   /\ op' = [s \in DOMAIN op |-> IF s = t THEN [o |-> "conf", k |-> k] ELSE IF "cand" \in DOMAIN op[s] THEN [op[s] EXCEPT !.cand = @ \cup {k}] ELSE op[s]]
   /\ UNCHANGED <<conf, ids, text, vis>>
ConfRet(t) ==
   /\ op[t].o = "conf"
   /\ calls' = [calls EXCEPT ![op[t].k].done = TRUE]
   /\ live' = live \ calls[op[t].k].over
   /\ op' = [op EXCEPT ![t] = Idle] /\ UNCHANGED <<conf, ids, text, vis>>
\* getLogger: one logger for each name
GetRet(t, id, name) ==
   /\ op[t].o = "get" /\ name = (IF op[t].n = "." THEN "" ELSE op[t].n)
   /\ IF op[t].n \in DOMAIN ids THEN ids[op[t].n] = id /\ UNCHANGED ids
      ELSE /\ \A n \in DOMAIN ids : ids[n] # id
           /\ ids' = [n \in DOMAIN ids \cup {op[t].n} |-> IF n = op[t].n THEN id ELSE ids[n]]
   /\ op' = [op EXCEPT ![t] = Idle] /\ UNCHANGED <<conf, calls, live, text, vis>>
\* a message: w is the stream it was written to, fl whether that was flushed afterwards
LogCall(t, n, lv, m) == Start(t, [o |-> "log", n |-> n, lv |-> lv, m |-> m, cand |-> live, w |-> "", fl |-> FALSE])
Line(e, r) == e.tag \o " " \o Levels[r.lv + 1] \o " " \o (IF r.n = "." THEN "" ELSE r.n) \o " " \o r.m \o "\n"
Enabled(e, r) == e.level >= r.lv
MayWrite(r, u, s) ==
   /\ r.o = "log" /\ r.w = ""
   /\ \E c \in Cands(r.cand) : Enabled(Eff(c, r.n), r)
   /\ \E c \in Cands(r.cand) : Line(Eff(c, r.n), r) = s
   /\ \E c \in Cands(r.cand) : Eff(c, r.n).streams[r.lv + 1] = u
\* a stream of the harness is written to or flushed
Written(t, u, s) == MayWrite(op[t], u, s) /\ op' = [op EXCEPT ![t].w = u] /\ UNCHANGED <<conf, calls, live, ids, text, vis>>
Flushed(t, u) ==
   /\ UNCHANGED <<conf, calls, live, ids, text, vis>>
   /\ \/ op[t].o = "log" /\ op[t].w = u /\ ~op[t].fl /\ op' = [op EXCEPT ![t].fl = TRUE]
      \/ op[t].o \in {"conf", "fall"} /\ UNCHANGED op
      \/ op[t].o = "lflush" /\ (\E c \in Cands(op[t].cand) : \E i \in 1 .. 5 : Eff(c, op[t].n).streams[i] = u) /\ op' = [op EXCEPT ![t].did = @ \cup {u}]
\* a file is written to or flushed: steps inside the operations
Put(t) ==
   \E u \in DOMAIN text : \E c \in (IF op[t].o = "log" THEN Cands(op[t].cand) ELSE {}) :
      LET s == Line(Eff(c, op[t].n), op[t]) IN
      /\ MayWrite(op[t], u, s)
      /\ op' = [op EXCEPT ![t].w = u] /\ text' = [text EXCEPT ![u] = Append(@, s)]
      /\ UNCHANGED <<conf, calls, live, ids, vis>>
Sync(t) ==
   \E u \in DOMAIN text :
      /\ \/ op[t].o = "log" /\ op[t].w = u /\ ~op[t].fl /\ op' = [op EXCEPT ![t].fl = TRUE]
         \/ op[t].o \in {"fall", "lflush"} /\ u \notin op[t].did /\ op' = [op EXCEPT ![t].did = @ \cup {u}]
      /\ vis' = [vis EXCEPT ![u] = Len(text[u])]
      /\ UNCHANGED <<conf, calls, live, ids, text>>
LogRet(t) ==
   LET r == op[t] IN
   /\ r.o = "log"
   /\ IF r.w = "" THEN \E c \in Cands(r.cand) : ~Enabled(Eff(c, r.n), r)
      ELSE \E c \in Cands(r.cand) : Eff(c, r.n).flush = r.fl
   /\ op' = [op EXCEPT ![t] = Idle] /\ UNCHANGED <<conf, calls, live, ids, text, vis>>
\* The other operations.
FallRet(t) == op[t].o = "fall" /\ op[t].did = DOMAIN text /\ op' = [op EXCEPT ![t] = Idle] /\ UNCHANGED <<conf, calls, live, ids, text, vis>>
LFlushRet(t) ==
   /\ op[t].o = "lflush"
   /\ \A i \in 1 .. 5 : \E c \in Cands(op[t].cand) : Eff(c, op[t].n).streams[i] \in op[t].did \cup {"ost:"}
   /\ op' = [op EXCEPT ![t] = Idle] /\ UNCHANGED <<conf, calls, live, ids, text, vis>>
ConfigRet(t, s) ==
   /\ op[t].o = "gc" /\ \E c \in Cands(op[t].cand) : Eff(c, op[t].n).text = s
   /\ op' = [op EXCEPT ![t] = Idle] /\ UNCHANGED <<conf, calls, live, ids, text, vis>>
\* The contents: whole lines in the order of writing, everything up to the last flush (or, without a buffer, everything).
Peek(u, ls) ==
   /\ Len(ls) <= Len(text[u]) /\ Len(ls) >= (IF u = "ost:" THEN Len(text[u]) ELSE vis[u])
   /\ \A i \in 1 .. Len(ls) : ls[i] = text[u][i]
   /\ UNCHANGED tvars
=============================================================================
