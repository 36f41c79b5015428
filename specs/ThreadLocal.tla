----------------------------- MODULE ThreadLocal -----------------------------
(* ThreadLocalInstance: per thread and per instance at most one object,      *)
(* created on the first request, destroyed with the thread, or with the      *)
(* instance if the requesting thread is the one that destroys it.            *)
EXTENDS Integers, Sequences, FiniteSets
VARIABLES inst,    \* live instances
          thr,     \* live threads
          obj,     \* <<thread, instance>> -> object
          orphans, \* <<thread, object>>: their instance is gone
          dead     \* objects that were destroyed
vars == <<inst, thr, obj, orphans, dead>>
With(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]
Without(f, S) == [x \in DOMAIN f \ S |-> f[x]]
TInit == inst = {} /\ thr = {} /\ obj = <<>> /\ orphans = {} /\ dead = {}
New(i) == inst' = inst \cup {i} /\ UNCHANGED <<thr, obj, orphans, dead>>
Start(t) == thr' = thr \cup {t} /\ UNCHANGED <<inst, obj, orphans, dead>>
\* A request by thread t that returned object o, having created it or not.
Get(t, i, o, created) ==
   IF <<t, i>> \in DOMAIN obj
   THEN ~created /\ o = obj[<<t, i>>] /\ UNCHANGED vars
   ELSE /\ created /\ o \notin {obj[x] : x \in DOMAIN obj} \cup dead
        /\ obj' = With(obj, <<t, i>>, o)
        /\ UNCHANGED <<inst, thr, orphans, dead>>
\* Destroyed objects may include orphans of the thread: whoever owned them is gone.
Gone(t, must, was) == /\ must \subseteq was
                      /\ was \subseteq must \cup {x[2] : x \in {y \in orphans : y[1] = t}}
                      /\ dead' = dead \cup was
Exit(t, was) ==
   LET mine == {x \in DOMAIN obj : x[1] = t}
   IN /\ Gone(t, {obj[x] : x \in mine} \cup {x[2] : x \in {y \in orphans : y[1] = t}}, was)
      /\ obj' = Without(obj, mine) /\ orphans' = {x \in orphans : x[1] # t}
      /\ thr' = thr \ {t} /\ UNCHANGED inst
Destroy(t, i, was) ==
   LET all == {x \in DOMAIN obj : x[2] = i}
       mine == {x \in all : x[1] = t}
   IN /\ {obj[x] : x \in mine} \subseteq was /\ was \subseteq {obj[x] : x \in all} \cup {x[2] : x \in {y \in orphans : y[1] = t}}
      /\ obj' = Without(obj, all) /\ orphans' = {x \in orphans \cup {<<x[1], obj[x]>> : x \in all} : x[2] \notin was}
      /\ dead' = dead \cup was /\ inst' = inst \ {i} /\ UNCHANGED thr
\* Orphans destroyed on some other occasion by thread t.
Cleanup(t, was) == was \subseteq {x[2] : x \in orphans} /\ orphans' = {x \in orphans : x[2] \notin was} /\ dead' = dead \cup was /\ UNCHANGED <<inst, thr, obj>>
=============================================================================
