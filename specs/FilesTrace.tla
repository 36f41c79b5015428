----------------------------- MODULE FilesTrace -----------------------------
EXTENDS Files, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.VT_TRACES)
VARIABLES ti, l, fs, hs, ss
Tr == Traces[ti]
Ev == Tr.ev
X == Ev[l]
vars == <<ti, l, fs, hs, ss>>
Init == ti \in 1 .. Len(Traces) /\ l = 1 /\ fs = <<>> /\ hs = <<>> /\ ss = <<>>
Is(o) == l <= Len(Ev) /\ X.op = o /\ l' = l + 1 /\ UNCHANGED ti
P == hs[X.s]
Q == hs[X.t]
Failed == X.res \notin {"ok", "unknown"}
NewFile == Is("file") /\ X.raw = X.p /\ X.text /\ hs' = (X.s :> X.p) @@ hs /\ UNCHANGED <<fs, ss>>
GetParent == Is("parent") /\ X.raw = Parent(P) /\ hs' = (X.t :> Parent(P)) @@ hs /\ UNCHANGED <<fs, ss>>
Absolute == Is("abs") /\ (P # <<>> => X.in /\ X.raw = P) /\ UNCHANGED <<fs, hs, ss>>
\* The relative path of a path that does not exist is not said.
GetRelative == /\ Is("rel") /\ UNCHANGED <<fs, hs, ss>>
               /\ P # <<>> /\ Q # <<>> /\ Exists(fs, P) /\ Exists(fs, Q) =>
                  X.res = "ok" /\ (X.raw = Relative(P, Q) \/ (P = Q /\ X.raw = <<".">>))
Compare == /\ Is("cmp") /\ UNCHANGED <<fs, hs, ss>>
           /\ X.eq = (P = Q) /\ X.ueq = X.eq /\ X.toeq = X.eq /\ (X.eq => X.hash) /\ ~X.string
           /\ X.lt = (~X.eq /\ ~X.gt)
Make == /\ Is("mk") /\ UNCHANGED <<hs, ss>>
        /\ IF P = <<>> THEN UNCHANGED fs
           ELSE IF CanMake(fs, P) THEN X.res = "ok" /\ X.r = ~Exists(fs, P) /\ fs' = MakeDirs(fs, P)
           ELSE (Failed \/ (IsFile(fs, P) /\ ~X.r)) /\ UNCHANGED fs
Rm == /\ Is("rm") /\ UNCHANGED <<hs, ss>>
      /\ IF P = <<>> THEN UNCHANGED fs
         ELSE IF Below(fs, P) # {} THEN Failed /\ UNCHANGED fs
         ELSE IF P \in DOMAIN fs THEN X.res = "ok" /\ X.r /\ fs' = Remove(fs, P)
         ELSE ((X.res = "ok" /\ ~X.r) \/ (Blocked(fs, P) /\ Failed)) /\ UNCHANGED fs
Stat == /\ Is("stat") /\ UNCHANGED <<fs, hs, ss>>
        /\ P # <<>> =>
           /\ X.exists = Exists(fs, P) /\ X.kind = Kind(fs, P) /\ X.it = IsDir(fs, P) /\ X.rit = IsDir(fs, P) /\ X.can
           /\ (IsFile(fs, P) => X.res = "ok" /\ X.size = fs[P].n)
           /\ (~Exists(fs, P) => X.res = "IOException" \/ (X.res = "ok" /\ X.size = -1))
           /\ (Exists(fs, P) => X.mt = "now")
Iter == /\ Is("iter") /\ UNCHANGED <<fs, hs, ss>>
        /\ IF ~IsDir(fs, P) THEN IF X.how \in {"uflat", "udeep"} THEN X.res = "NotImplementedException" ELSE X.res = "filesystem_error"
           ELSE LET want == IF X.how \in {"flat", "uflat"} THEN Children(fs, P) ELSE Below(fs, P) IN
                P # <<>> => /\ X.res = "ok" /\ X.n = Cardinality(want)
                            /\ {<<X.l[i].p, X.l[i].k>> : i \in 1 .. Len(X.l)} = {<<q, Kind(fs, q)>> : q \in want}
Content == [kind |-> "file", b |-> X.b, x |-> X.x, istext |-> X.istext, n |-> X.n]
Short(x) == x = <<>> \/ x[1] # -1
Write == /\ Is("write") /\ UNCHANGED <<hs, ss>>
         /\ (X.istext /\ Short(X.x) /\ Short(X.b)) => X.b = Utf8(X.x)
         /\ IF CanWrite(fs, P) THEN X.res = "ok" /\ X.uri = P /\ fs' = Put(fs, P, Content)
            ELSE X.res = "FileNotFoundException" /\ UNCHANGED fs
Read == /\ Is("read") /\ UNCHANGED <<fs, hs, ss>>
        /\ IF IsFile(fs, P) THEN X.res = "ok" /\ X.uri = P /\ (IF X.text THEN fs[P].istext => X.out = fs[P].x ELSE X.out = fs[P].b)
           ELSE IF IsDir(fs, P) THEN TRUE
           ELSE X.res = "FileNotFoundException"
ReadLines == /\ Is("lines") /\ UNCHANGED <<fs, hs, ss>>
             /\ IF IsFile(fs, P) THEN X.res = "ok" /\ (Short(fs[P].b) => X.l = Lines(fs[P].b))
                ELSE X.res = "FileNotFoundException"
\* Reading what is not a regular file with the file utilities.
UtilRead == l <= Len(Ev) /\ X.op = "read" /\ X.util => (IsFile(fs, P) \/ X.res = "FileNotFoundException")
Copy == /\ Is("cp") /\ UNCHANGED <<hs, ss>>
        /\ IF IsFile(fs, P) /\ CanWrite(fs, Q) /\ ~Exists(fs, Q) THEN X.res = "ok" /\ fs' = Put(fs, Q, fs[P])
           ELSE IF ~Exists(fs, P) THEN Failed /\ UNCHANGED fs
           ELSE FALSE
New == Is("snew") /\ ss' = (X.s :> [b |-> X.b, x |-> X.x, istext |-> X.istext]) @@ ss /\ UNCHANGED <<fs, hs>>
More(n) == LET c == ss[n] IN ss' = (n :> [b |-> c.b \o X.b, x |-> c.x \o X.x, istext |-> c.istext /\ X.istext]) @@ ss
AppendTo == Is("sapp") /\ More(X.s) /\ UNCHANGED <<fs, hs>>
WriteTo == Is("swrite") /\ X.res = "ok" /\ More(X.s) /\ UNCHANGED <<fs, hs>>
ReadFrom == /\ Is("sread") /\ UNCHANGED <<fs, hs, ss>>
            /\ X.res = "ok" /\ X.uri /\ (IF X.text THEN ss[X.s].istext => X.out = ss[X.s].x ELSE X.out = ss[X.s].b)
CompareStrings == /\ Is("scmp") /\ UNCHANGED <<fs, hs, ss>>
                  /\ X.eq = (ss[X.s].b = ss[X.t].b) /\ (X.eq => X.hash) /\ X.kinds
Next == \/ NewFile \/ GetParent \/ Absolute \/ GetRelative \/ Compare \/ Make \/ Rm \/ Stat \/ Iter \/ Write \/ (UtilRead /\ Read) \/ ReadLines \/ Copy
        \/ New \/ AppendTo \/ WriteTo \/ ReadFrom \/ CompareStrings
        \/ l = Len(Ev) + 1 /\ Tr.end \in {"done", "part"} /\ PrintT(<<"ACC", ti>>) /\ l' = l + 1 /\ UNCHANGED <<ti, fs, hs, ss>>
Spec == Init /\ [][Next]_vars
=============================================================================
