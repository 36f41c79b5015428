------------------------------ MODULE TrieTrace ------------------------------
EXTENDS Trie, Json, TLC, IOUtils
Traces == ndJsonDeserialize(IOEnv.VT_TRACES)
VARIABLES ti, l
Tr == Traces[ti]
Ev == Tr.ev
X == Ev[l]
Init == ti \in 1 .. Len(Traces) /\ l = 1 /\ TInit(3)
Is(o) == l <= Len(Ev) /\ X.op = o /\ l' = l + 1 /\ UNCHANGED ti
N == At(tr[X.w], X.p)
Put(n) == tr' = [tr EXCEPT ![X.w] = Set(@, X.p, n)]
Query == UNCHANGED tr
\* The ancestors of the node at path p: values of the nodes on the way, the node itself last.
Ancestors(root, p) == [i \in 1 .. Len(p) + 1 |-> LET n == At(root, SubSeq(p, 1, i - 1)) IN [k |-> n.k, d |-> n.d]]
SameWalk(seq, w, root) == /\ Len(seq) = Len(w)
                          /\ \A i \in 1 .. Len(w) : seq[i].k = w[i].k /\ seq[i].d = w[i].d
                          /\ \A i \in 1 .. Len(w) : "a" \in DOMAIN seq[i] => seq[i].a = Ancestors(root, w[i].p)
Next == \/ Is("add") /\ LET a == Add(N, X.k, X.d) IN Put(a.n) /\ X.i = a.i
        \/ Is("aor") /\ LET a == AddOrReplace(N, X.cmp, X.k, X.d, X.rep) IN Put(a.n) /\ (X.i = 0 \/ X.i = a.i)
        \/ Is("foac") /\ LET a == FindOrAdd(N, X.cmp, X.k, X.d) IN Put(a.n) /\ X.i = a.i
        \/ Is("foa") /\ LET a == FindOrAddPath(tr[X.w], X.cmp, X.ks, X.d) IN tr' = [tr EXCEPT ![X.w] = a.n] /\ X.r = a.p
        \/ Is("findc") /\ Query /\ X.i = First(N, X.cmp, X.k)
        \/ Is("find") /\ Query /\ X.r = Find(tr[X.w], X.cmp, X.ks, X.skip)
        \/ Is("near") /\ Query /\ X.r = FindNearest(tr[X.w], X.cmp, X.ks, X.skip)
        \/ Is("leaf") /\ Query /\ X.r = FindNearestLeaf(tr[X.w], X.cmp, X.ks, X.skip)
        \/ Is("cascade") /\ tr' = [tr EXCEPT ![X.w] = Cascade(@, tr[X.from], X.inc)]
        \* After a move the source has unspecified content: the harness assigns it anew.
        \/ Is("cascademove") /\ tr' = [tr EXCEPT ![X.w] = Cascade(@, tr[X.from], X.inc), ![X.from] = Node(0, 0)]
        \/ Is("copy") /\ tr' = [tr EXCEPT ![X.w] = tr[X.from]]
        \/ Is("move") /\ tr' = [tr EXCEPT ![X.w] = tr[X.from], ![X.from] = Node(0, 0)]
        \/ Is("reset") /\ tr' = [tr EXCEPT ![X.w] = Node(X.k, X.d)]
        \/ Is("dump") /\ Query /\ X.tree = tr[X.w]
        \/ Is("walk") /\ Query
                      /\ SameWalk(X.depth, Depth(tr[X.w], <<>>), tr[X.w]) /\ SameWalk(X.cdepth, Depth(tr[X.w], <<>>), tr[X.w])
                      /\ SameWalk(X.breadth, Breadth(<<<<tr[X.w], <<>>>>>>), tr[X.w]) /\ SameWalk(X.cbreadth, Breadth(<<<<tr[X.w], <<>>>>>>), tr[X.w])
        \/ /\ l = Len(Ev) + 1 /\ Tr.end = "done"
           /\ PrintT(<<"ACC", ti>>) /\ l' = l + 1 /\ UNCHANGED <<tr, ti>>
Spec == Init /\ [][Next]_<<tr, ti, l>>
=============================================================================
