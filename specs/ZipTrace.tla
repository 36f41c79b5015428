------------------------------ MODULE ZipTrace ------------------------------
EXTENDS Zip, Json, TLC, IOUtils
Traces == ndJsonDeserialize(IOEnv.VT_TRACES)
VARIABLES ti, l, disk, h
Tr == Traces[ti]
Ev == Tr.ev
X == Ev[l]
Files == {"f", "g"}
\* "lost": what is in the archive is not determined.
NoFile == [st |-> "none", es |-> <<>>, comment |-> <<>>]
Closed == [open |-> FALSE, f |-> "", es |-> <<>>, orig |-> <<>>, comment |-> <<>>, oc |-> <<>>, pw |-> <<>>, changed |-> {}, later |-> FALSE, lost |-> FALSE, ready |-> FALSE, failed |-> FALSE]
Init == ti \in 1 .. Len(Traces) /\ l = 1 /\ disk = [f \in Files |-> NoFile] /\ h = [w \in {"u", "z"} |-> Closed]
Is(o) == l <= Len(Ev) /\ X.op = o /\ l' = l + 1 /\ UNCHANGED ti
Z == h["z"]
E == "ZipException"
Fresh == Is("fresh") /\ UNCHANGED disk /\ h' = [w \in {"u", "z"} |-> Closed]
Fixture == /\ Is("fixture") /\ UNCHANGED h
           /\ disk' = [disk EXCEPT ![X.f] = [st |-> IF X.entries = <<>> THEN "empty" ELSE "zip", comment |-> IF X.entries = <<>> THEN Unknown ELSE X.comment,
                 es |-> [i \in 1 .. Len(X.entries) |-> LET e == X.entries[i] IN Entry(e.n, e.d, e.s, e.c, IF IsDir(e.n) THEN <<>> ELSE X.pw)]]]
Junk == Is("junk") /\ UNCHANGED h /\ disk' = [disk EXCEPT ![X.f] = [NoFile EXCEPT !.st = IF X.how = "empty" THEN "blank" ELSE "junk", !.comment = IF X.how = "empty" THEN Unknown ELSE <<>>]]
Damage == /\ Is("damage") /\ UNCHANGED h /\ X.did
          /\ disk' = [disk EXCEPT ![X.f].es = [i \in 1 .. Len(@) |-> IF @[i].n = X.n THEN [@[i] EXCEPT !.d = "damaged"] ELSE @[i]]]
SameEntry(e, x, pw) == e.n = x.n /\ (e.c = Unknown \/ e.c = x.c) /\ x.d = (IF e.d = "damaged" \/ (e.p # <<>> /\ e.p # pw) THEN "unreadable" ELSE e.d)
\* The order of the entries is the one of the archive.
Disk == /\ Is("disk") /\ UNCHANGED h
        /\ LET a == disk[X.f] IN
           IF a.st = "lost" THEN disk' = disk
           ELSE IF a.st = "empty" THEN (X.st = "none" \/ (X.st = "zip" /\ X.entries = <<>>)) /\ UNCHANGED disk
           ELSE IF a.st = "blank" THEN X.st \in {"junk", "zip"} /\ X.entries = <<>> /\ UNCHANGED disk
           ELSE IF a.st # "zip" THEN X.st = a.st /\ UNCHANGED disk
           ELSE /\ X.st = "zip" /\ Len(X.entries) = Len(a.es) /\ a.comment \in {Unknown, X.comment}
                /\ \A i \in 1 .. Len(a.es) : Has(X.entries, a.es[i].n) /\ SameEntry(a.es[i], X.entries[At(X.entries, a.es[i].n)], X.pw)
                /\ disk' = [disk EXCEPT ![X.f].comment = X.comment, ![X.f].es = [i \in 1 .. Len(a.es) |-> [a.es[At(a.es, X.entries[i].n)] EXCEPT !.c = X.entries[i].c]]]
Opened(f, pw, lost) == [Closed EXCEPT !.open = TRUE, !.f = f, !.es = disk[f].es, !.orig = disk[f].es, !.comment = disk[f].comment, !.oc = disk[f].comment, !.pw = pw, !.lost = lost]
Open == /\ Is("open") /\ UNCHANGED disk /\ ~h[X.w].open
        /\ LET st == disk[X.f].st
               ok == X.res = "ok" /\ X.open /\ h' = [h EXCEPT ![X.w] = Opened(X.f, X.pw, st = "lost")]
               no == X.res = E /\ ~X.open /\ UNCHANGED h IN
           IF st \in {"lost", "blank"} \/ (st = "empty" /\ X.w = "u") THEN ok \/ no
           ELSE IF st = "junk" \/ (st = "none" /\ X.w = "u") THEN no ELSE ok
Close == Is("close") /\ UNCHANGED disk /\ X.res = "ok" /\ ~X.open /\ h' = [h EXCEPT ![X.w] = Closed]
Commit == /\ Is("commit")
          /\ IF ~Z.open THEN X.res = "ok" /\ ~X.open /\ UNCHANGED <<disk, h>>
             ELSE IF Z.lost THEN disk' = [disk EXCEPT ![Z.f] = [NoFile EXCEPT !.st = "lost"]] /\ h' = [h EXCEPT !["z"] = IF X.open THEN @ ELSE Closed]
             ELSE IF Z.later /\ ~Z.ready THEN X.res = E /\ X.open /\ UNCHANGED disk /\ h' = [h EXCEPT !["z"].failed = TRUE]
             \* Another try may fail for the same reason.
             ELSE IF Z.failed /\ X.res = E THEN X.open /\ UNCHANGED <<disk, h>>
             ELSE /\ X.res = "ok" /\ ~X.open
                  /\ disk' = [disk EXCEPT ![Z.f] = IF Z.es = <<>> THEN [NoFile EXCEPT !.st = "empty", !.comment = Unknown] ELSE [st |-> "zip", es |-> Z.es, comment |-> Z.comment]]
                  /\ h' = [h EXCEPT !["z"] = Closed]
\* An operation of a transaction: it fails, or the view is the new one.
Change(legal, es, names) ==
   /\ UNCHANGED disk
   /\ IF ~Z.open THEN X.res = E /\ UNCHANGED h
      ELSE IF Z.lost THEN UNCHANGED h
      ELSE IF ~legal THEN X.res = E /\ UNCHANGED h
      ELSE X.res = "ok" /\ h' = [h EXCEPT !["z"].es = es, !["z"].changed = @ \cup names]
Lost == UNCHANGED disk /\ h' = [h EXCEPT !["z"].lost = TRUE]
Put == /\ Is("put")
       /\ LET n == Clean(X.n) IN
          IF Z.open /\ ~Z.lost /\ Has(Z.es, n) /\ Z.es[At(Z.es, n)].p # <<>> THEN Lost
          ELSE IF X.how = "later" /\ Z.open /\ ~Z.lost /\ ~IsDir(X.n)
          THEN X.res = "ok" /\ UNCHANGED disk /\ h' = [h EXCEPT !["z"].es = PutEntry(@, n, X.d, X.s), !["z"].changed = @ \cup {n}, !["z"].later = TRUE, !["z"].ready = FALSE]
          ELSE Change(~IsDir(X.n), PutEntry(Z.es, n, X.d, X.s), {n})
Provide == Is("provide") /\ UNCHANGED disk /\ h' = [h EXCEPT !["z"].ready = TRUE]
PutDir == Is("putdir") /\ LET n == Clean(X.n) IN Change(X.n = <<>> \/ IsDir(X.n), IF n = <<>> THEN Z.es ELSE PutDirectory(Z.es, n), {})
Del == /\ Is("delete")
       /\ LET n == Clean(X.n) IN
          \* Deleting a directory that is not there may be an error or no change.
          IF Z.open /\ ~Z.lost /\ IsDir(n) /\ Under(Z.es, n) = {} THEN X.res \in {"ok", E} /\ UNCHANGED <<disk, h>>
          ELSE Change(Under(Z.es, n) # {}, Delete(Z.es, n), Under(Z.es, n))
Ren == /\ Is("rename")
       /\ LET n == Clean(X.n) to == Clean(X.to) legal == IsDir(n) = IsDir(X.to) IN
          IF Z.open /\ ~Z.lost /\ legal /\ IsDir(n) /\ Under(Z.es, n) = {} THEN X.res \in {"ok", E} /\ UNCHANGED <<disk, h>>
          ELSE IF Z.open /\ ~Z.lost /\ legal /\ IsDir(n) /\ Conflict(Z.es, n, to) THEN Lost
          ELSE Change(legal /\ Under(Z.es, n) # {} /\ ~Conflict(Z.es, n, to), Rename(Z.es, n, to),
                      Under(Z.es, n) \cup {NewName(m, n, to) : m \in Under(Z.es, n)})
Comment == /\ Is("comment") /\ UNCHANGED disk
           /\ IF ~Z.open THEN X.res = E /\ UNCHANGED h
              ELSE IF Z.lost THEN UNCHANGED h ELSE X.res = "ok" /\ h' = [h EXCEPT !["z"].comment = X.s]
W == h[X.w]
HasEv == /\ Is("has") /\ UNCHANGED <<disk, h>>
         /\ IF ~W.open THEN X.res = E
            ELSE IF W.lost THEN TRUE
            ELSE X.res = "ok" /\ X.v = Has(W.es, Clean(X.n)) /\ (X.i >= 0) = X.v /\ (X.w = "u" /\ X.v => W.es[X.i + 1].n = Clean(X.n))
State == /\ Is("state") /\ UNCHANGED <<disk, h>>
         /\ X.open = W.open
         /\ IF ~W.open THEN \A i \in 1 .. 3 : X.res[i] = E
            ELSE IF W.lost THEN TRUE
            \* The entries are those of the original archive.
            ELSE /\ \A i \in 1 .. 3 : X.res[i] = "ok"
                 /\ X.path = W.f /\ (W.comment \in {Unknown, X.comment} \/ W.oc = X.comment)
                 /\ X.count = Len(W.orig) /\ Len(X.names) = X.count
                 /\ \A i \in 1 .. X.count : X.names[i] = W.orig[i].n
\* What reading an entry gives.
Readable(e) == e.d # "damaged" /\ (e.p = <<>> \/ e.p = W.pw)
GivesData(e, r1, r2, d1, d2) == IF Readable(e) THEN r1 = "ok" /\ r2 = "ok" /\ d1 = e.d /\ d2 = e.d ELSE r1 = E /\ r2 = E
GivesInfo(e, i) == X.res[3] = "ok" /\ X.res[4] = "ok" /\ X.name = e.n /\ X.size = e.s /\ X.i = i - 1 /\ X.c = e.c
Read == /\ Is("read") /\ UNCHANGED <<disk, h>>
        /\ LET n == Clean(X.n) IN
           IF ~W.open THEN \A i \in 1 .. 4 : X.res[i] = E
           ELSE IF W.lost \/ n \in W.changed THEN \A i \in 1 .. 4 : X.res[i] \in {"ok", E}
           ELSE IF ~Has(W.es, n) THEN \A i \in 1 .. 4 : X.res[i] = E
           ELSE IF ~Has(W.orig, n) THEN \A i \in 1 .. 4 : X.res[i] \in {"ok", E}
           ELSE LET i == At(W.orig, n) e == W.orig[i] IN
                /\ (IF IsDir(X.n) THEN X.res[1] = E /\ X.res[2] = E ELSE GivesData(e, X.res[1], X.res[2], X.d1, X.d2))
                /\ GivesInfo(e, i)
ReadI == /\ Is("readi") /\ UNCHANGED <<disk, h>>
         /\ IF ~W.open THEN \A i \in 1 .. 5 : X.res[i] = E
            ELSE IF X.w = "z" \/ W.lost THEN \A i \in 1 .. 5 : X.res[i] \in {"ok", E}
            ELSE IF X.at < 0 \/ X.at >= Len(W.es) THEN (\A i \in {1, 2, 3, 5} : X.res[i] = E) /\ X.res[4] \in {"ok", E}
            ELSE LET e == W.es[X.at + 1] IN GivesData(e, X.res[1], X.res[2], X.d1, X.d2) /\ GivesInfo(e, X.at + 1) /\ X.res[5] = "ok" /\ X.name2 = e.n
IterEntry(e, x) == /\ x.res = "ok" /\ x.n = e.n /\ x.dir = IsDir(e.n) /\ x.same /\ x.size = e.s /\ x.c = e.c
                   /\ (IF e.d # "damaged" /\ (e.p = <<>> \/ e.p = X.pw) THEN x.read = "ok" /\ \A k \in 1 .. 4 : x.d[k] = e.d ELSE x.read = E)
Iter == /\ Is("iter") /\ UNCHANGED <<disk, h>>
        /\ LET a == disk[X.f] IN
           IF a.st = "lost" THEN TRUE
           ELSE IF a.st \in {"empty", "blank"} THEN X.res \in {"ok", E} /\ X.entries = <<>>
           ELSE IF a.st # "zip" THEN X.res = E /\ X.entries = <<>>
           ELSE X.res = "ok" /\ Len(X.entries) = Len(a.es) /\ \A i \in 1 .. Len(a.es) : IterEntry(a.es[i], X.entries[i])
Gzip == /\ Is("gzip") /\ UNCHANGED <<disk, h>> /\ X.res1 = "ok"
        /\ IF X.damage = "none" THEN X.stream /\ X.res2 = "ok" /\ ~X.bad /\ X.out = X.d ELSE X.res2 # "ok" \/ X.bad \/ X.out # X.d
Next == \/ Fresh \/ Fixture \/ Junk \/ Damage \/ Disk \/ Open \/ Close \/ Commit \/ Put \/ Provide \/ PutDir \/ Del \/ Ren \/ Comment \/ HasEv \/ State \/ Read \/ ReadI \/ Iter \/ Gzip
        \/ l = Len(Ev) + 1 /\ Tr.end \in {"done", "part"} /\ PrintT(<<"ACC", ti>>) /\ l' = l + 1 /\ UNCHANGED <<ti, disk, h>>
Spec == Init /\ [][Next]_<<ti, l, disk, h>>
=============================================================================
