--------------------------- MODULE DepGraphTrace ---------------------------
EXTENDS DepGraph, Json, TLC, IOUtils
Traces == ndJsonDeserialize(IOEnv.VT_TRACES)
VARIABLES ti, l
Tr == Traces[ti]
Ev == Tr.ev
X == Ev[l]
Init == ti \in 1 .. Len(Traces) /\ l = 1 /\ GInit
Is(o) == l <= Len(Ev) /\ X.op = o /\ l' = l + 1 /\ UNCHANGED ti
Do(x) == X.r = x.r /\ Apply(x)
Distinct(s) == \A i, j \in 1 .. Len(s) : s[i] = s[j] => i = j
Query == UNCHANGED gvars
Obs == /\ Query
       /\ \A i \in 1 .. Len(X.keys) : LET q == X.keys[i] IN
             /\ q.has = Known(q.k)
             /\ q.data = IF Known(q.k) THEN nodes[q.k] ELSE 0 - 1
             /\ IF Known(q.k) THEN q.r = "ok" /\ Distinct(q.deps) /\ {q.deps[j] : j \in 1 .. Len(q.deps)} = {[k |-> a, d |-> nodes[a]] : a \in Preds(q.k)}
                              ELSE q.r # "ok"
       /\ \A i \in 1 .. Len(X.rels) : LET q == X.rels[i] IN
             IF ~(Known(q.a) /\ Known(q.b)) THEN q.r = "ItemDoesNotExistException"
             ELSE IF <<q.a, q.b>> \notin E THEN q.r = "RelationshipDoesNotExistException"
             ELSE q.r = "ok" /\ q.d = edges[<<q.a, q.b>>]
       /\ Perm(X.iter) /\ Perm(X.citer)
       /\ X.cyc = ~Acyclic(E) /\ X.cyc2 = X.cyc /\ IsCycles(X.cycles) /\ X.cyc3 = X.cyc /\ X.kept
       /\ IF X.cyc THEN X.orderR # "ok" /\ X.levelsR # "ok"
                   ELSE X.orderR = "ok" /\ IsOrder(X.order) /\ X.levelsR = "ok" /\ IsLevels(X.levels)
Next == \/ Is("add") /\ Do(Add(X.a, X.d, X.strict))
        \/ Is("remove") /\ Do(Remove(X.a, X.strict))
        \/ Is("relate") /\ Do(Relate(X.a, X.b, X.d))
        \/ Is("unrelate") /\ Do(Unrelate(X.a, X.b))
        \/ Is("obs") /\ Obs
        \/ /\ l = Len(Ev) + 1 /\ Tr.end = "done"
           /\ PrintT(<<"ACC", ti>>) /\ l' = l + 1 /\ UNCHANGED <<gvars, ti>>
Spec == Init /\ [][Next]_<<gvars, ti, l>>
=============================================================================
