------------------------------ MODULE TrieGen ------------------------------
(* All small pairs of tries and every operation on them.                   *)
EXTENDS Trie, TLC
CONSTANTS Ks, MaxSize
VARIABLE h
RECURSIVE Paths(_)
Paths(n) == {<<>>} \cup UNION {{<<i>> \o p : p \in Paths(n.c[i])} : i \in 1 .. Len(n.c)}
RECURSIVE PS(_)
PS(p) == IF p = <<>> THEN "" ELSE "." \o ToString(Head(p)) \o PS(Tail(p))
Keys2 == {<<a>> : a \in Ks} \cup {<<a, b>> : a, b \in Ks}
D == Size(tr[1]) + 10 * Size(tr[2])
Init == TInit(2) /\ h = ""
Log(s) == h' = h \o "|" \o s
Put(w, p, n) == tr' = [tr EXCEPT ![w] = Set(@, p, n)]
Next ==
  \E w \in 1 .. 2 :
   \/ \E p \in Paths(tr[w]), k \in Ks :
      \/ Put(w, p, Add(At(tr[w], p), k, D).n) /\ Log("add " \o ToString(w) \o " p" \o PS(p) \o " " \o ToString(k) \o " " \o ToString(D) \o " 0")
      \/ Put(w, p, AddOrReplace(At(tr[w], p), "eq", k, D, FALSE).n) /\ Log("aor " \o ToString(w) \o " p" \o PS(p) \o " " \o ToString(k) \o " " \o ToString(D) \o " eq 0 0")
      \/ Put(w, p, FindOrAdd(At(tr[w], p), "eq", k, D).n) /\ Log("foac " \o ToString(w) \o " p" \o PS(p) \o " " \o ToString(k) \o " " \o ToString(D) \o " eq 0")
   \/ \E ks \in Keys2 : tr' = [tr EXCEPT ![w] = FindOrAddPath(@, "eq", ks, 0).n] /\ Log("foa " \o ToString(w) \o " k" \o PS(ks) \o " eq 0")
   \/ tr' = [tr EXCEPT ![w] = Cascade(@, tr[3 - w], 0)] /\ Log("cascade " \o ToString(w) \o " " \o ToString(3 - w) \o " 0")
   \/ tr' = [tr EXCEPT ![w] = tr[3 - w]] /\ Log("copy " \o ToString(w) \o " " \o ToString(3 - w) \o " 0")
Emit == PrintT(<<"SCRIPT", h'>>)
\* Payloads only tell the values apart: shapes and keys are what is covered.
RECURSIVE Shape(_)
Shape(n) == <<n.k, [i \in 1 .. Len(n.c) |-> Shape(n.c[i])]>>
View == <<Shape(tr[1]), Shape(tr[2])>>
Bound == Size(tr[1]) + Size(tr[2]) <= MaxSize
\* Facts about the operations.
RootKept == tr[1].k = 0 /\ tr[2].k = 0
RECURSIVE Uniq(_)
Uniq(n) == (\A i, j \in 1 .. Len(n.c) : n.c[i].k = n.c[j].k => i = j) /\ \A i \in 1 .. Len(n.c) : Uniq(n.c[i])
\* Cascading twice is the same as cascading once onto tries without duplicate siblings.
Idempotent == (Uniq(tr[1]) /\ Uniq(tr[2])) => LET c == Cascade(tr[1], tr[2], 0) IN Cascade(c, tr[2], 0) = c /\ Uniq(c)
\* Whatever the source contains is found in the result.
Covers == LET c == Cascade(tr[1], tr[2], 0) IN \A ks \in Keys2 : Find(tr[2], "eq", ks, TRUE) # None => Find(c, "eq", ks, TRUE) # None
Spec == Init /\ [][Next]_<<tr, h>>
=============================================================================
