----------------------------- MODULE AppDirsGen -----------------------------
(* Every state of every variable, with every user, for every directory; the   *)
(* directory asked for again after a variable has changed.                    *)
EXTENDS AppDirs, TLC
VARIABLES which, env, who, step
Whiches == {"userdata", "userconfig", "runtime", "globaldata", "globalconfig"}
States == {"unset", "empty", "blank", "plain", "blanks"}
\* Only what the directory uses takes every state; the rest say something else.
Envs(w) == {e \in [Names -> States] : \A n \in Names \ Uses(w) : e[n] = "plain"}
Text(n, s) == CASE s = "empty" -> "" [] s = "blank" -> "%20%20" [] s = "plain" -> "@/" \o n [] OTHER -> "%20@/" \o n \o "%20%20"
Codes(n, s) == LET k == CASE n = "HOME" -> 72 [] n = "TMPDIR" -> 84 [] n = "XDG_DATA_HOME" -> 68 [] n = "XDG_CONFIG_HOME" -> 67 [] OTHER -> 82 IN
               CASE s \in {"empty", "unset"} -> <<>> [] s = "blank" -> <<32, 32>> [] s = "plain" -> <<47, k>> [] OTHER -> <<32, 47, k, 32, 32>>
Value(n, s) == [set |-> s # "unset", v |-> Codes(n, s)]
Values(e) == [n \in Names |-> Value(n, e[n])]
User(w) == [known |-> w # "none", name |-> <<117>>, home |-> <<47, 117>>]
Answer(w, e, u) == Directory(w, <<103>>, <<110>>, Values(e), User(u), <<47, 112, 47, 98, 47, 120>>)
Init == which \in Whiches /\ env \in Envs(which) /\ who \in {"none", "short", "long"} /\ step = 0
Step == step = 0 /\ step' = 1 /\ UNCHANGED <<which, env, who>>
Set(n) == IF env[n] = "unset" THEN "env " \o n \o " unset" ELSE "env " \o n \o " set " \o Text(n, env[n])
Line == "user " \o who \o "|" \o Set("HOME") \o "|" \o Set("XDG_DATA_HOME") \o "|" \o Set("XDG_CONFIG_HOME") \o "|" \o Set("XDG_RUNTIME_DIR")
        \o "|" \o Set("TMPDIR") \o "|home|ask " \o which \o " g n|env HOME set @/other|env XDG_DATA_HOME set @/other|env XDG_RUNTIME_DIR set @/other|env TMPDIR unset|ask "
        \o which \o " g n|ask " \o which \o " g n"
Emit == PrintT(<<"SCRIPT", Line>>)
Spec == Init /\ [][Step]_<<which, env, who, step>>
Laws ==
   LET a == Answer(which, env, who) IN
   \* A user is needed only if the variables say nothing.
   /\ (\E n \in Uses(which) : env[n] \in {"plain", "blanks"}) \/ Uses(which) = {} => a.is = "ok"
   /\ a.is # "ok" => who = "none"
   \* Blank is as unset, and blanks around a value do not matter.
   /\ \A n \in Names : /\ env[n] \in {"blank", "empty"} => a = Answer(which, [env EXCEPT ![n] = "unset"], who)
                       /\ env[n] = "blanks" => a = Answer(which, [env EXCEPT ![n] = "plain"], who)
                       /\ n \notin Uses(which) => \A s \in States : a = Answer(which, [env EXCEPT ![n] = s], who)
   \* The more specific variable decides.
   /\ which \in {"userdata", "userconfig"} => LET n == IF which = "userdata" THEN "XDG_DATA_HOME" ELSE "XDG_CONFIG_HOME" IN
         (env[n] = "plain" => \A s \in States : a = Answer(which, [env EXCEPT !["HOME"] = s], who))
   \* Each has a directory of its own.
   /\ \A w \in Whiches \ {which} : LET b == Answer(w, env, who) IN (a.is = "ok" /\ b.is = "ok") => a.path # b.path
=============================================================================
