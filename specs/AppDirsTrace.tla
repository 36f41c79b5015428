---------------------------- MODULE AppDirsTrace ----------------------------
EXTENDS AppDirs, Json, IOUtils, TLC, FiniteSets
Traces == ndJsonDeserialize(IOEnv.VT_TRACES)
VARIABLES ti, l, env, user, made, fixed
vars == <<ti, l, env, user, made, fixed>>
Tr == Traces[ti]
Ev == Tr.ev
X == Ev[l]
Whiches == {"userdata", "userconfig", "runtime", "globaldata", "globalconfig"}
Init == /\ ti \in 1 .. Len(Traces) /\ l = 1 /\ env = [n \in Names |-> [set |-> FALSE, v |-> <<>>]] /\ user = [known |-> FALSE, name |-> <<>>, home |-> <<>>]
        /\ made = {} /\ fixed = [w \in Whiches |-> {}]
Is(o) == l <= Len(Ev) /\ X.op = o /\ l' = l + 1 /\ UNCHANGED ti
Env == Is("env") /\ env' = [env EXCEPT ![X.name] = [set |-> X.set, v |-> X.v]] /\ UNCHANGED <<user, made, fixed>>
User == Is("user") /\ user' = [known |-> X.known, name |-> X.name, home |-> X.home] /\ UNCHANGED <<env, made, fixed>>
\* A file, or a directory with its mode, in the scratch directory.
Made == Is("made") /\ made' = made \cup {[path |-> Canon(X.path), kind |-> X.kind]} /\ UNCHANGED <<env, user, fixed>>
Answer(x, a) == IF a.is = "ok" THEN x.is = "ok" /\ Canon(x.path) = a.path ELSE x.is = a.is
Homes == Is("home") /\ Answer(X, Home(env, user)) /\ UNCHANGED <<env, user, made, fixed>>
Name == Is("name") /\ Answer(X, IF user.known THEN Path(user.name) ELSE None) /\ UNCHANGED <<env, user, made, fixed>>
There(p) == \E m \in made : m.kind # "file" /\ Holds(p, m.path)
\* A file above, or a directory above, with nothing below it on the way, that cannot be written.
InTheWay(p) == \E m \in made : /\ Holds(m.path, p)
                              /\ \/ m.kind = "file"
                                 \/ m.kind = "locked" /\ p # m.path /\ \A d \in {SubSeq(p, 1, i - 1) : i \in {j \in Len(m.path) + 2 .. Len(p) : p[j] = SLASH}} : ~There(d)
RWX == 448
Ask ==
   /\ Is("ask") /\ UNCHANGED <<env, user>>
   /\ LET a == Directory(X.which, X.g, X.n, env, user, X.program)
          before == fixed[X.which]
          new == X.which = "runtime" /\ a.is = "ok" /\ ~There(a.path)
          same == {f \in before : f.g = X.g /\ f.n = X.n} IN
      \/ \* Asked before: the answer does not change.
         /\ \E f \in before : X.is = "ok" /\ Canon(X.path) = f.path
         /\ UNCHANGED <<made, fixed>>
      \/ /\ same = {}
         /\ IF new /\ InTheWay(a.path) THEN X.is # "ok" /\ UNCHANGED <<made, fixed>>
            ELSE /\ Answer(X, a)
                 \* The directory is there, for its user only if it was created.
                 /\ (X.which = "runtime" /\ a.is = "ok") => (X.dir /\ X.own /\ (new => X.mode = RWX))
                 /\ fixed' = IF a.is = "ok" THEN [fixed EXCEPT ![X.which] = @ \cup {[g |-> X.g, n |-> X.n, path |-> a.path]}] ELSE fixed
                 /\ made' = IF new THEN made \cup {[path |-> a.path, kind |-> "directory"]} ELSE made
Next ==
   \/ Env
   \/ User
   \/ Made
   \/ Homes
   \/ Name
   \/ Ask
   \/ l = Len(Ev) + 1 /\ Tr.end \in {"done", "part"} /\ PrintT(<<"ACC", ti>>) /\ l' = l + 1 /\ UNCHANGED <<ti, env, user, made, fixed>>
Spec == Init /\ [][Next]_vars
=============================================================================
