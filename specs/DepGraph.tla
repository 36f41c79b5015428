------------------------------ MODULE DepGraph ------------------------------
(* DependencyGraph: objects with data, directed relationships             *)
(* independent -> dependent with data.                                    *)
EXTENDS Integers, Sequences, FiniteSets
VARIABLES nodes,  \* key -> data of the object
          edges   \* <<independent, dependent>> -> data of the relationship
gvars == <<nodes, edges>>
K == DOMAIN nodes
E == DOMAIN edges
Without(f, S) == [x \in DOMAIN f \ S |-> f[x]]
With(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]
GInit == nodes = <<>> /\ edges = <<>>

Known(a) == a \in K
Add(a, d, strict) ==
   IF Known(a) THEN [r |-> IF strict THEN "ItemExistsException" ELSE "ok", n |-> nodes, e |-> edges]
               ELSE [r |-> "ok", n |-> With(nodes, a, d), e |-> edges]
Remove(a, strict) ==
   IF Known(a) THEN [r |-> "ok", n |-> Without(nodes, {a}), e |-> Without(edges, {x \in E : a \in {x[1], x[2]}})]
               ELSE [r |-> IF strict THEN "ItemDoesNotExistException" ELSE "ok", n |-> nodes, e |-> edges]
Relate(a, b, d) ==
   IF Known(a) /\ Known(b) THEN [r |-> "ok", n |-> nodes, e |-> IF <<a, b>> \in E THEN edges ELSE With(edges, <<a, b>>, d)]
                           ELSE [r |-> "ItemDoesNotExistException", n |-> nodes, e |-> edges]
Unrelate(a, b) ==
   IF Known(a) /\ Known(b) THEN [r |-> "ok", n |-> nodes, e |-> Without(edges, {<<a, b>>})]
                           ELSE [r |-> "ItemDoesNotExistException", n |-> nodes, e |-> edges]
Apply(x) == nodes' = x.n /\ edges' = x.e

(* Queries *)
Preds(a) == {x[1] : x \in {y \in E : y[2] = a}}
RECURSIVE Grow(_, _)
Grow(S, es) == LET T == S \cup {x[2] : x \in {y \in es : y[1] \in S}} IN IF T = S THEN S ELSE Grow(T, es)
Reach(a, es) == Grow({x[2] : x \in {y \in es : y[1] = a}}, es)  \* reachable in one step or more
Acyclic(es) == \A a \in {x[1] : x \in es} : a \notin Reach(a, es)
OnCycle(x) == x[1] = x[2] \/ x[1] \in Reach(x[2], E)
Perm(s) == Len(s) = Cardinality(K) /\ {s[i].k : i \in 1 .. Len(s)} = K /\ \A i \in 1 .. Len(s) : s[i].d = nodes[s[i].k]
Pos(s, a) == CHOOSE i \in 1 .. Len(s) : s[i].k = a
IsOrder(s) == Perm(s) /\ \A x \in E : Pos(s, x[1]) < Pos(s, x[2])
RECURSIVE Flat(_)
Flat(ss) == IF ss = <<>> THEN <<>> ELSE Head(ss) \o Flat(Tail(ss))
LevelIn(ss, a) == CHOOSE i \in 1 .. Len(ss) : \E j \in 1 .. Len(ss[i]) : ss[i][j].k = a
Max(S) == CHOOSE x \in S : \A y \in S : y <= x
\* Every object is in the first step after those of all its dependencies.
IsLevels(ss) == /\ Perm(Flat(ss))
                /\ \A a \in K : LevelIn(ss, a) = Max({0} \cup {LevelIn(ss, p) : p \in Preds(a)}) + 1
                /\ \A i \in 2 .. Len(ss) : ss[i] # <<>>
IsCycles(c) == LET C == {<<c[i][1], c[i][2]>> : i \in 1 .. Len(c)}
               IN C \subseteq E /\ (\A x \in C : OnCycle(x)) /\ Acyclic(E \ C)
=============================================================================
