------------------------------ MODULE OneTime ------------------------------
(***************************************************************************)
(* API-level specification of the two one-time initialisation components:  *)
(*   LazyValue: the first caller constructs the value, everybody gets that *)
(*     value; a destruct function runs at destruction iff constructed.     *)
(*   SingleTimeExecutor: the first caller runs the code, everybody returns *)
(*     after it ran; a destructor block runs at destruction iff it ran.    *)
(* A construction (code) that throws has not happened: the exception goes  *)
(* to the caller that ran it and a later (or waiting) caller tries again.  *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets
VARIABLES phase,   \* "none" | "busy" | "ready" | "destroyed"
          by,      \* the thread that runs the user's function
          val,     \* the value
          addr,    \* identity of the value object handed out (0 = not yet known)
          op,      \* op[t]: "idle" | "open" (in the call) | "threw"
          ended    \* the destruction function has run
ovars == <<phase, by, val, addr, op, ended>>
OInit(T) == phase = "none" /\ by = -1 /\ val = 0 /\ addr = 0 /\ op = [t \in T |-> "idle"] /\ ended = FALSE
Call(t) == op[t] = "idle" /\ phase # "destroyed" /\ op' = [op EXCEPT ![t] = "open"] /\ UNCHANGED <<phase, by, val, addr, ended>>
\* The user's function starts: never twice at the same time, never after it succeeded.
Begin(t) == op[t] = "open" /\ phase = "none" /\ phase' = "busy" /\ by' = t /\ UNCHANGED <<val, addr, op, ended>>
Success(t, v) == phase = "busy" /\ by = t /\ phase' = "ready" /\ val' = v /\ by' = -1 /\ UNCHANGED <<addr, op, ended>>
Throw(t) == phase = "busy" /\ by = t /\ phase' = "none" /\ by' = -1 /\ op' = [op EXCEPT ![t] = "threw"] /\ UNCHANGED <<val, addr, ended>>
Ret(t, v, a) == /\ op[t] = "open" /\ phase = "ready" /\ v = val /\ (addr = 0 \/ a = addr)
                /\ addr' = a /\ op' = [op EXCEPT ![t] = "idle"] /\ UNCHANGED <<phase, by, val, ended>>
RetExc(t) == op[t] = "threw" /\ op' = [op EXCEPT ![t] = "idle"] /\ UNCHANGED <<phase, by, val, addr, ended>>
\* isConstructed / hasExecuted, where nothing else is going on.
Observe(t, r) == /\ (\A u \in DOMAIN op : op[u] = "idle") => (r <=> phase = "ready")
                 /\ UNCHANGED ovars
Destroy == /\ \A u \in DOMAIN op : op[u] = "idle"
           /\ phase' = "destroyed" /\ by' = IF phase = "ready" THEN -2 ELSE -3
           /\ UNCHANGED <<val, addr, op, ended>>
EndCall(v) == phase = "destroyed" /\ by = -2 /\ ~ended /\ v = val /\ ended' = TRUE /\ UNCHANGED <<phase, by, val, addr, op>>
Destroyed(hasEnd) == phase = "destroyed" /\ (hasEnd => (ended <=> by = -2)) /\ UNCHANGED ovars
=============================================================================
