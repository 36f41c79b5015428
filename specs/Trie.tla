-------------------------------- MODULE Trie --------------------------------
(* ObjectTrie: trees of values.  A value has a key, which equality compares, *)
(* and a payload.  A node is [k, d, c], c the sequence of its children.      *)
EXTENDS Integers, Sequences
VARIABLE tr       \* the tries: a sequence of root nodes
Node(k, d) == [k |-> k, d |-> d, c |-> <<>>]
TInit(n) == tr = [i \in 1 .. n |-> Node(0, 0)]

(* Comparison functions: equality of the keys, or a looser one. *)
Match(cmp, a, b) == IF cmp = "loose" THEN a % 10 = b % 10 ELSE a = b
First(node, cmp, k) ==
   LET S == {i \in 1 .. Len(node.c) : Match(cmp, node.c[i].k, k)}
   IN IF S = {} THEN 0 ELSE CHOOSE i \in S : \A j \in S : i <= j

RECURSIVE At(_, _)
At(node, path) == IF path = <<>> THEN node ELSE At(node.c[Head(path)], Tail(path))
RECURSIVE Set(_, _, _)
Set(node, path, new) == IF path = <<>> THEN new
                        ELSE [node EXCEPT !.c = [@ EXCEPT ![Head(path)] = Set(@, Tail(path), new)]]
Append1(node, child) == [node EXCEPT !.c = Append(@, child)]

(* Adding: returns the new node and the index of the child. *)
Add(node, k, d) == [n |-> Append1(node, Node(k, d)), i |-> Len(node.c) + 1]
AddOrReplace(node, cmp, k, d, rep) ==
   LET i == First(node, cmp, k)
   IN IF i = 0 THEN Add(node, k, d)
      ELSE [n |-> [node EXCEPT !.c = [@ EXCEPT ![i] = IF rep THEN [@ EXCEPT !.d = d + 1000] ELSE [@ EXCEPT !.k = k, !.d = d]]], i |-> i]
FindOrAdd(node, cmp, k, d) ==
   LET i == First(node, cmp, k) IN IF i = 0 THEN Add(node, k, d) ELSE [n |-> node, i |-> i]
RECURSIVE FindOrAddPath(_, _, _, _)
FindOrAddPath(node, cmp, ks, d) ==
   IF ks = <<>> THEN [n |-> node, p |-> <<>>]
   ELSE LET f == FindOrAdd(node, cmp, Head(ks), d)
            r == FindOrAddPath(f.n.c[f.i], cmp, Tail(ks), d)
        IN [n |-> [f.n EXCEPT !.c = [@ EXCEPT ![f.i] = r.n]], p |-> <<f.i>> \o r.p]

(* Searching: <<0>> stands for no node, otherwise the path of the node. *)
None == <<0>>
RECURSIVE Longest(_, _, _)
Longest(node, cmp, ks) ==
   IF ks = <<>> THEN <<>>
   ELSE LET i == First(node, cmp, Head(ks)) IN IF i = 0 THEN <<>> ELSE <<i>> \o Longest(node.c[i], cmp, Tail(ks))
Find(root, cmp, ks, skip) ==
   IF ks = <<>> \/ (~skip /\ ~Match(cmp, root.k, Head(ks))) THEN None
   ELSE LET s == IF skip THEN ks ELSE Tail(ks)
            p == Longest(root, cmp, s)
        IN IF Len(p) = Len(s) THEN p ELSE None
FindNearest(root, cmp, ks, skip) ==
   IF ks = <<>> \/ (~skip /\ ~Match(cmp, root.k, Head(ks))) THEN None
   ELSE LET p == Longest(root, cmp, IF skip THEN ks ELSE Tail(ks))
        IN IF skip /\ p = <<>> THEN None ELSE p
FindNearestLeaf(root, cmp, ks, skip) ==
   LET p == FindNearest(root, cmp, ks, skip)
   IN IF p = None THEN None ELSE IF At(root, p).c = <<>> THEN p ELSE None

(* Cascading a source onto a destination; inc: what the function adds to the payload. *)
RECURSIVE CascadeChildren(_, _, _)
CascadeChildren(dst, cs, inc) ==
   IF cs = <<>> THEN dst
   ELSE LET s == Head(cs)
            i == First(dst, "eq", s.k)
            j == IF i = 0 THEN Len(dst.c) + 1 ELSE i
            d1 == IF i = 0 THEN Append1(dst, Node(s.k, s.d + inc))
                  ELSE [dst EXCEPT !.c = [@ EXCEPT ![i] = [@ EXCEPT !.k = s.k, !.d = s.d + inc]]]
            d2 == [d1 EXCEPT !.c = [@ EXCEPT ![j] = CascadeChildren(@, s.c, inc)]]
        IN CascadeChildren(d2, Tail(cs), inc)
Cascade(dst, src, inc) ==
   IF dst.k # src.k THEN dst
   ELSE CascadeChildren([dst EXCEPT !.k = src.k, !.d = src.d + inc], src.c, inc)

(* Traversals: nodes as [k, d, p], p the path. *)
RECURSIVE Depth(_, _)
RECURSIVE DepthAll(_, _, _)
Depth(node, p) == <<[k |-> node.k, d |-> node.d, p |-> p]>> \o DepthAll(node.c, p, 1)
DepthAll(cs, p, i) == IF i > Len(cs) THEN <<>> ELSE Depth(cs[i], p \o <<i>>) \o DepthAll(cs, p, i + 1)
RECURSIVE Breadth(_)
Breadth(queue) ==   \* queue of <<node, path>>
   IF queue = <<>> THEN <<>>
   ELSE LET h == Head(queue)
        IN <<[k |-> h[1].k, d |-> h[1].d, p |-> h[2]]>> \o Breadth(Tail(queue) \o [i \in 1 .. Len(h[1].c) |-> <<h[1].c[i], h[2] \o <<i>>>>])
RECURSIVE Size(_)
RECURSIVE SizeAll(_)
Size(node) == 1 + SizeAll(node.c)
SizeAll(cs) == IF cs = <<>> THEN 0 ELSE Size(Head(cs)) + SizeAll(Tail(cs))
=============================================================================
