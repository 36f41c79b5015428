------------------------------- MODULE Files -------------------------------
(* A file system of directories and files, as seen through File handles, and  *)
(* the contents of string URIs.  Paths are sequences of names.  A node is a   *)
(* directory or a file with a content [b |-> bytes, x |-> code points,        *)
(* istext |-> whether the bytes are the UTF-8 form of the code points].       *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC
Parent(p) == SubSeq(p, 1, Len(p) - 1)
Dir == [kind |-> "dir"]
IsDir(s, p) == p = <<>> \/ (p \in DOMAIN s /\ s[p].kind = "dir")
IsFile(s, p) == p \in DOMAIN s /\ s[p].kind = "file"
Exists(s, p) == p = <<>> \/ p \in DOMAIN s
Prefix(p, q) == Len(p) <= Len(q) /\ SubSeq(q, 1, Len(p)) = p
Below(s, p) == {q \in DOMAIN s : Prefix(p, q) /\ q # p}
Children(s, p) == {q \in Below(s, p) : Len(q) = Len(p) + 1}
Kind(s, p) == IF IsDir(s, p) THEN "dir" ELSE IF IsFile(s, p) THEN "file" ELSE "other"
\* A file is on the way to the path.
Blocked(s, p) == \E n \in 1 .. Len(p) - 1 : IsFile(s, SubSeq(p, 1, n))
Put(s, p, node) == (p :> node) @@ s
MakeDirs(s, p) == [q \in {SubSeq(p, 1, n) : n \in 1 .. Len(p)} |-> Dir] @@ s
Remove(s, p) == [q \in DOMAIN s \ {p} |-> s[q]]
CanMake(s, p) == ~Blocked(s, p) /\ ~IsFile(s, p)
CanWrite(s, p) == p # <<>> /\ IsDir(s, Parent(p)) /\ ~IsDir(s, p)
\* Well formed: the parent of what is there is a directory.
WellFormed(s) == \A p \in DOMAIN s : p # <<>> /\ IsDir(s, Parent(p))
\* The path of p relative to base.
RECURSIVE Common(_, _)
Common(p, q) == IF p = <<>> \/ q = <<>> THEN 0 ELSE IF Head(p) # Head(q) THEN 0 ELSE 1 + Common(Tail(p), Tail(q))
Relative(p, base) == LET n == Common(p, base) IN [i \in 1 .. Len(base) - n |-> ".."] \o SubSeq(p, n + 1, Len(p))
\* The lines of a text.
RECURSIVE Lines(_)
Lines(b) == IF b = <<>> THEN <<>>
            ELSE LET at == {i \in 1 .. Len(b) : b[i] = 10}
                     n == IF at = {} THEN Len(b) + 1 ELSE CHOOSE i \in at : \A j \in at : i <= j IN
                 <<SubSeq(b, 1, n - 1)>> \o Lines(SubSeq(b, n + 1, Len(b)))
\* UTF-8.
Unit(c) == IF c < 128 THEN <<c>>
           ELSE IF c < 2048 THEN <<192 + c \div 64, 128 + (c % 64)>>
           ELSE IF c < 65536 THEN <<224 + c \div 4096, 128 + ((c \div 64) % 64), 128 + (c % 64)>>
           ELSE <<240 + c \div 262144, 128 + ((c \div 4096) % 64), 128 + ((c \div 64) % 64), 128 + (c % 64)>>
RECURSIVE Utf8(_)
Utf8(x) == IF x = <<>> THEN <<>> ELSE Unit(Head(x)) \o Utf8(Tail(x))
=============================================================================
