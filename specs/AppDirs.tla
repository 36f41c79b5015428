------------------------------ MODULE AppDirs ------------------------------
(* The directories of an application: where its data, configuration and       *)
(* runtime files live, given the environment, the user and the program.       *)
(* Texts are sequences of codes; a variable is [set, v].                      *)
EXTENDS Integers, Sequences
BLANK == 32
SLASH == 47
RECURSIVE TrimL(_), TrimR(_), Canon(_)
TrimL(s) == IF s # <<>> /\ s[1] = BLANK THEN TrimL(Tail(s)) ELSE s
TrimR(s) == IF s # <<>> /\ s[Len(s)] = BLANK THEN TrimR(SubSeq(s, 1, Len(s) - 1)) ELSE s
Trim(s) == TrimR(TrimL(s))
\* A path without repeated or final slashes.
Canon(s) == IF Len(s) > 1 /\ s[Len(s)] = SLASH THEN Canon(SubSeq(s, 1, Len(s) - 1))
            ELSE LET at == {i \in 1 .. Len(s) - 1 : s[i] = SLASH /\ s[i + 1] = SLASH} IN
                 IF at = {} THEN s ELSE LET i == CHOOSE i \in at : \A j \in at : i <= j IN Canon(SubSeq(s, 1, i) \o SubSeq(s, i + 2, Len(s)))
In(d, n) == d \o <<SLASH>> \o n
Parent(s) == LET at == {i \in 1 .. Len(s) : s[i] = SLASH} IN
             IF at = {} THEN <<>> ELSE LET i == CHOOSE i \in at : \A j \in at : j <= i IN IF i = 1 THEN <<SLASH>> ELSE SubSeq(s, 1, i - 1)
Begins(s, p) == Len(s) >= Len(p) /\ SubSeq(s, 1, Len(p)) = p
\* A directory that is p, or holds it.
Holds(d, p) == d = p \/ Begins(p, In(d, <<>>))

LocalShare == <<46, 108, 111, 99, 97, 108, 47, 115, 104, 97, 114, 101>>      \* .local/share
DotConfig == <<46, 99, 111, 110, 102, 105, 103>>                            \* .config
Share == <<115, 104, 97, 114, 101>>
Data == <<100, 97, 116, 97>>
Config == <<99, 111, 110, 102, 105, 103>>
Tmp == <<SLASH, 116, 109, 112>>

Given(x) == x.set /\ Trim(x.v) # <<>>
None == [is |-> "UserNotFoundException", path |-> <<>>]
Path(p) == [is |-> "ok", path |-> Canon(p)]
\* env: the variables by name; user: [known, name, home]; program: the path of the program.
Home(env, user) == IF Given(env.HOME) THEN Path(Trim(env.HOME.v))
                   ELSE IF user.known THEN Path(user.home) ELSE None
Under(x, rest) == IF x.is # "ok" THEN x ELSE Path(x.path \o rest)
Of(g, n) == <<SLASH>> \o g \o <<SLASH>> \o n
Directory(which, g, n, env, user, program) ==
   CASE which = "userdata" -> IF Given(env.XDG_DATA_HOME) THEN Path(Trim(env.XDG_DATA_HOME.v) \o Of(g, n))
                              ELSE Under(Home(env, user), <<SLASH>> \o LocalShare \o Of(g, n))
     [] which = "userconfig" -> IF Given(env.XDG_CONFIG_HOME) THEN Path(Trim(env.XDG_CONFIG_HOME.v) \o Of(g, n))
                                ELSE Under(Home(env, user), <<SLASH>> \o DotConfig \o Of(g, n))
     [] which = "runtime" -> IF Given(env.XDG_RUNTIME_DIR) THEN Path(Trim(env.XDG_RUNTIME_DIR.v) \o Of(g, n))
                             ELSE IF Given(env.TMPDIR) THEN Path(Trim(env.TMPDIR.v) \o Of(g, n))
                             ELSE IF user.known THEN Path(In(Tmp, Trim(user.name)) \o Of(g, n)) ELSE None
     [] which = "globaldata" -> Path(In(Parent(Parent(program)), Share) \o Of(g, n) \o <<SLASH>> \o Data)
     [] which = "globalconfig" -> Path(In(Parent(Parent(program)), Share) \o Of(g, n) \o <<SLASH>> \o Config)
Names == {"HOME", "XDG_DATA_HOME", "XDG_CONFIG_HOME", "XDG_RUNTIME_DIR", "TMPDIR"}
Uses(which) == CASE which = "userdata" -> {"HOME", "XDG_DATA_HOME"} [] which = "userconfig" -> {"HOME", "XDG_CONFIG_HOME"}
                 [] which = "runtime" -> {"XDG_RUNTIME_DIR", "TMPDIR"} [] OTHER -> {}
=============================================================================
