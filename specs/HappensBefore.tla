--------------------------- MODULE HappensBefore ---------------------------
(***************************************************************************)
(* The happens-before relation of the C++ memory model, restricted to what *)
(* the recorded executions contain: mutexes, atomics (loads, stores, RMWs  *)
(* with their memory orders), fences, and accesses to user payload.         *)
(* Executions are sequentially consistent interleavings; by the DRF         *)
(* guarantee, a payload access that is not ordered after the conflicting    *)
(* write in one of them is a data race, i.e. on real hardware the caller    *)
(* may see a value that was not (completely) published.                     *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

VARIABLES C,     \* C[t]: vector clock of t
          RF,    \* RF[t]: clock at the last release fence of t
          AP,    \* AP[t]: clocks read by relaxed loads, waiting for an acquire fence
          L,     \* L[o]: clock published by the last store to / unlock of o
          W,     \* W[x]: clock of the last write to payload x
          R,     \* R[x]: join of the clocks of the reads of x since
          race   \* racing payload accesses

hbvars == <<C, RF, AP, L, W, R, race>>

Relaxed == 0
Acq(mo) == mo \in {1, 2, 4, 5}
Rel(mo) == mo \in {3, 4, 5}

Zero(T) == [u \in T |-> 0]
Join(a, b) == [u \in DOMAIN a |-> IF a[u] > b[u] THEN a[u] ELSE b[u]]
Leq(a, b) == \A u \in DOMAIN a : a[u] <= b[u]
Tick(t, c) == [c EXCEPT ![t] = @ + 1]

HInit(T) ==
  /\ C = [t \in T |-> [Zero(T) EXCEPT ![t] = 1]]
  /\ RF = [t \in T |-> Zero(T)] /\ AP = [t \in T |-> Zero(T)]
  /\ L = <<>> /\ W = <<>> /\ R = <<>> /\ race = {}

Get(f, o, T) == IF o \in DOMAIN f THEN f[o] ELSE Zero(T)
Put(f, o, v) == [x \in DOMAIN f \cup {o} |-> IF x = o THEN v ELSE f[x]]
T0 == DOMAIN C

Lock(t, o)   == /\ C' = [C EXCEPT ![t] = Join(@, Get(L, o, T0))]
                /\ UNCHANGED <<RF, AP, L, W, R, race>>
Unlock(t, o) == /\ L' = Put(L, o, C[t])
                /\ C' = [C EXCEPT ![t] = Tick(t, @)]
                /\ UNCHANGED <<RF, AP, W, R, race>>
Load(t, o, mo) ==
  /\ IF Acq(mo) THEN C' = [C EXCEPT ![t] = Join(@, Get(L, o, T0))] /\ UNCHANGED AP
                ELSE AP' = [AP EXCEPT ![t] = Join(@, Get(L, o, T0))] /\ UNCHANGED C
  /\ UNCHANGED <<RF, L, W, R, race>>
Store(t, o, mo) ==
  /\ L' = Put(L, o, IF Rel(mo) THEN C[t] ELSE RF[t])
  /\ C' = [C EXCEPT ![t] = Tick(t, @)]
  /\ UNCHANGED <<RF, AP, W, R, race>>
Rmw(t, o, mo) ==
  LET old == Get(L, o, T0)
      c   == IF Acq(mo) THEN Join(C[t], old) ELSE C[t]
  IN /\ AP' = IF Acq(mo) THEN AP ELSE [AP EXCEPT ![t] = Join(@, old)]
     /\ L' = Put(L, o, Join(old, IF Rel(mo) THEN c ELSE RF[t]))
     /\ C' = [C EXCEPT ![t] = Tick(t, c)]
     /\ UNCHANGED <<RF, W, R, race>>
Fence(t, mo) ==
  LET c == IF Acq(mo) THEN Join(C[t], AP[t]) ELSE C[t]
  IN /\ RF' = IF Rel(mo) THEN [RF EXCEPT ![t] = c] ELSE RF
     /\ C' = [C EXCEPT ![t] = Tick(t, c)]
     /\ UNCHANGED <<AP, L, W, R, race>>
Write(t, x) ==
  /\ race' = IF Leq(Get(W, x, T0), C[t]) /\ Leq(Get(R, x, T0), C[t]) THEN race ELSE race \cup {<<"write", t, x>>}
  /\ W' = Put(W, x, C[t]) /\ R' = Put(R, x, Zero(T0))
  /\ C' = [C EXCEPT ![t] = Tick(t, @)]
  /\ UNCHANGED <<RF, AP, L>>
Read(t, x) ==
  /\ race' = IF Leq(Get(W, x, T0), C[t]) THEN race ELSE race \cup {<<"read", t, x>>}
  /\ R' = Put(R, x, Join(Get(R, x, T0), C[t]))
  /\ C' = [C EXCEPT ![t] = Tick(t, @)]
  /\ UNCHANGED <<RF, AP, L, W>>
=============================================================================
