-------------------------------- MODULE Zip --------------------------------
(* Zip archives.  An archive is a sequence of entries with different names,   *)
(* and a comment.  A transaction works on its own view; the file is what it   *)
(* was until the transaction commits, and then the view.  Names are sequences *)
(* of characters; a name that ends with a slash is the one of a directory.    *)
EXTENDS Naturals, Sequences, FiniteSets
Slash == 47
Space == 32
IsDir(n) == n # <<>> /\ n[Len(n)] = Slash
RECURSIVE TrimL(_), TrimR(_), DropL(_), Collapse(_)
TrimL(n) == IF n # <<>> /\ n[1] = Space THEN TrimL(Tail(n)) ELSE n
TrimR(n) == IF n # <<>> /\ n[Len(n)] = Space THEN TrimR(SubSeq(n, 1, Len(n) - 1)) ELSE n
DropL(n) == IF n # <<>> /\ n[1] = Slash THEN DropL(Tail(n)) ELSE n
Collapse(n) == IF Len(n) < 2 THEN n
               ELSE IF n[1] = Slash /\ n[2] = Slash THEN Collapse(Tail(n)) ELSE <<n[1]>> \o Collapse(Tail(n))
\* Separators and surrounding space are cleaned up.
Clean(n) == DropL(Collapse(TrimL(TrimR(n))))
Prefix(a, b) == Len(a) <= Len(b) /\ SubSeq(b, 1, Len(a)) = a
Unknown == <<99999>>
Entry(n, d, s, c, p) == [n |-> n, d |-> d, s |-> s, c |-> c, p |-> p]
Directory(n) == Entry(n, "t0", 0, <<>>, <<>>)
Names(es) == {es[i].n : i \in 1 .. Len(es)}
At(es, n) == CHOOSE i \in 1 .. Len(es) : es[i].n = n
Has(es, n) == n \in Names(es)
\* The directories above a name, and the name itself if it is a directory.
RECURSIVE Above(_, _)
Above(n, i) == IF i > Len(n) THEN <<>> ELSE IF n[i] = Slash THEN <<SubSeq(n, 1, i)>> \o Above(n, i + 1) ELSE Above(n, i + 1)
RECURSIVE Ensure(_, _)
Ensure(es, ds) == IF ds = <<>> THEN es ELSE Ensure(IF Has(es, Head(ds)) THEN es ELSE Append(es, Directory(Head(ds))), Tail(ds))
PutDirectory(es, n) == IF Has(es, n) THEN es ELSE Ensure(es, Above(n, 1))
Parent(n) == LET s == {i \in 1 .. Len(n) : n[i] = Slash} IN IF s = {} THEN <<>> ELSE SubSeq(n, 1, CHOOSE i \in s : \A j \in s : j <= i)
PutEntry(es, n, d, s) ==
   LET a == IF Parent(n) = <<>> THEN es ELSE PutDirectory(es, Parent(n)) IN
   IF Has(a, n) THEN [a EXCEPT ![At(a, n)] = Entry(n, d, s, Unknown, <<>>)]
   ELSE Append(a, Entry(n, d, s, <<>>, <<>>))
RECURSIVE Without(_, _)
Without(es, ns) == IF es = <<>> THEN <<>> ELSE (IF Head(es).n \in ns THEN <<>> ELSE <<Head(es)>>) \o Without(Tail(es), ns)
\* The entries an operation on a name is about: of a directory, all that is in it.
Under(es, n) == {m \in Names(es) : IF IsDir(n) THEN Prefix(n, m) ELSE m = n}
Delete(es, n) == Without(es, Under(es, n))
NewName(m, n, to) == to \o SubSeq(m, Len(n) + 1, Len(m))
Rename(es, n, to) == [i \in 1 .. Len(es) |-> IF es[i].n \in Under(es, n) THEN [es[i] EXCEPT !.n = NewName(es[i].n, n, to)] ELSE es[i]]
Conflict(es, n, to) == \E m \in Under(es, n) : NewName(m, n, to) # m /\ NewName(m, n, to) \in Names(es)
Distinct(es) == \A i, j \in 1 .. Len(es) : i # j => es[i].n # es[j].n
\* Every entry a transaction puts lies in directories that are there.
Rooted(es) == \A i \in 1 .. Len(es) : Parent(IF IsDir(es[i].n) THEN SubSeq(es[i].n, 1, Len(es[i].n) - 1) ELSE es[i].n) \in Names(es) \cup {<<>>}
=============================================================================
