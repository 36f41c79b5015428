----------------------------- MODULE ScopeExit -----------------------------
(* OnScopeExit and MovableOnScopeExit: an object holds at most one function *)
(* (0: none), which runs when the object is destroyed.                      *)
EXTENDS Integers, Sequences
VARIABLE held  \* object -> function it holds
Without(f, x) == [y \in DOMAIN f \ {x} |-> f[y]]
With(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]
SInit == held = <<>>
Runs(f) == IF f = 0 THEN <<>> ELSE <<f>>
New(o, f) == [h |-> With(held, o, f), runs |-> <<>>]
Clear(o) == [h |-> With(held, o, 0), runs |-> <<>>]
Reset(o, f) == [h |-> With(held, o, f), runs |-> <<>>]
Exec(o) == [h |-> With(held, o, 0), runs |-> Runs(held[o])]
Move(o, p) == [h |-> With(With(held, p, held[o]), o, 0), runs |-> <<>>]
Destroy(o) == [h |-> Without(held, o), runs |-> Runs(held[o])]
=============================================================================
