----------------------------- MODULE ShmObject -----------------------------
(* Shared memory objects: named memory, handles that map it, in any process. *)
EXTENDS Integers, Sequences, FiniteSets
VARIABLES mem,    \* sequence of the contents of all memory objects ever made
          names,  \* name -> memory
          hnd     \* handle -> memory (0: moved from)
vars == <<mem, names, hnd>>
With(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]
Without(f, x) == [y \in DOMAIN f \ {x} |-> f[y]]
HInit == mem = <<>> /\ names = <<>> /\ hnd = <<>>
Fresh(v) == mem' = Append(mem, v)
Create(h, n, v) == Fresh(v) /\ names' = With(names, n, Len(mem) + 1) /\ hnd' = With(hnd, h, Len(mem) + 1)
CreateUnnamed(h, v) == Fresh(v) /\ hnd' = With(hnd, h, Len(mem) + 1) /\ UNCHANGED names
Open(h, n) == n \in DOMAIN names /\ hnd' = With(hnd, h, names[n]) /\ UNCHANGED <<mem, names>>
OpenOrCreate(h, n, v) == IF n \in DOMAIN names THEN Open(h, n) ELSE Create(h, n, v)
Missing(n) == n \notin DOMAIN names /\ UNCHANGED vars
Write(h, v) == mem' = [mem EXCEPT ![hnd[h]] = v] /\ UNCHANGED <<names, hnd>>
\* Through a handle opened by name in another process.
WriteNamed(n, v) == n \in DOMAIN names /\ mem' = [mem EXCEPT ![names[n]] = v] /\ UNCHANGED <<names, hnd>>
Move(h, g) == hnd' = With(With(hnd, g, hnd[h]), h, 0) /\ UNCHANGED <<mem, names>>
Destroy(h) == hnd' = Without(hnd, h) /\ UNCHANGED <<mem, names>>
=============================================================================
