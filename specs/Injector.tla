------------------------------ MODULE Injector ------------------------------
(* Dependency injection.  Injectors form a forest; each has the bindings of   *)
(* its configuration (a prototype's are shared), and provides instances:      *)
(* - a request is provided by the nearest injector of the hierarchy that has  *)
(*   a binding of exactly that kind and name; if there is none, promotions    *)
(*   are tried over the whole hierarchy (weak and const from the stronger     *)
(*   kinds);                                                                  *)
(* - singletons are made once per binding, thread local ones once per binding *)
(*   and thread, values and unique pointers for each request, and everything  *)
(*   that is made gets its own dependencies from the injector that owns the   *)
(*   binding;                                                                 *)
(* - creation validates first, then makes the eager instances and calls the   *)
(*   registered functions;                                                    *)
(* - an object lives as long as an injector, an object or a static pointer    *)
(*   holds it, and is destroyed once.                                         *)
EXTENDS Integers, Sequences, FiniteSets
VARIABLES inj,     \* injector -> [p, c, v, pres]: parent (0: none), configuration, only validated, pre-destruction calls
          conf,    \* configuration -> sequence of bindings [k, n, f, t, deps, o]
          store,   \* <<configuration, binding, slot>> -> object; slot: thread, or -1 for the provider
          objs,    \* object -> [s, d]: objects it holds, has a custom deleter
          dead,    \* objects that were destroyed
          handles, \* injectors the user holds
          orph,    \* <<thread, object>> of thread local singletons whose binding is gone
          stat     \* static pointer -> <<injector, object>>
ivars == <<inj, conf, store, objs, dead, handles, orph, stat>>
With(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]
Rng(s) == {s[i] : i \in 1 .. Len(s)}
IInit == inj = <<>> /\ conf = <<>> /\ store = <<>> /\ objs = <<>> /\ dead = {} /\ handles = {} /\ orph = {} /\ stat = <<>>

InjKinds == {"I", "WI", "CI", "CWI"}
\* The kinds of binding that can provide a kind, in the order of preference.
Cands(k) == CASE k = "S" -> <<"S">> [] k = "W" -> <<"S">> [] k = "CS" -> <<"CS", "S">> [] k = "CW" -> <<"CS", "S">>
              [] k = "R" -> <<"R">> [] k = "CR" -> <<"CR", "R">> [] k = "U" -> <<"U">> [] k = "CU" -> <<"U">>
              [] OTHER -> <<k>>
Strong(k) == k \in {"S", "CS", "U", "CU"}
None == <<0, 0>>
Local(bs, k, n) == LET m == {i \in 1 .. Len(bs) : bs[i].k = k /\ bs[i].n = n} IN IF m = {} THEN 0 ELSE CHOOSE i \in m : TRUE
RECURSIVE Find(_, _, _, _, _)
\* The injector and the binding that have exactly the key.
Find(ij, cf, j, k, n) == IF j = 0 THEN None
                         ELSE LET i == Local(cf[ij[j].c], k, n) IN IF i # 0 THEN <<j, i>> ELSE Find(ij, cf, ij[j].p, k, n)
RECURSIVE FirstOf(_, _, _, _, _)
FirstOf(ij, cf, j, ks, n) == IF ks = <<>> THEN None
                             ELSE LET r == Find(ij, cf, j, Head(ks), n) IN IF r # None THEN r ELSE FirstOf(ij, cf, j, Tail(ks), n)
Resolve(ij, cf, j, k, n) == FirstOf(ij, cf, j, Cands(k), n)

--------------------------------------------------------------------------------
(* What creating an injector requires. *)
Duplicate(bs) == \E i, j \in 1 .. Len(bs) : i # j /\ bs[i].k = bs[j].k /\ bs[i].n = bs[j].n
HoldsOwner(bs) == \E i \in 1 .. Len(bs) : bs[i].k \in {"S", "CS"} /\ \E d \in Rng(bs[i].deps) : d[1] \in {"I", "CI"}
Missing(ij, cf, j) == LET bs == cf[ij[j].c] IN \E i \in 1 .. Len(bs) : \E d \in Rng(bs[i].deps) : d[1] \notin InjKinds /\ Resolve(ij, cf, j, d[1], d[2]) = None
\* Dependencies between the bindings of the injector itself.
Edges(ij, cf, j) == LET bs == cf[ij[j].c] IN
   {<<i, k>> \in (1 .. Len(bs)) \X (1 .. Len(bs)) : \E d \in Rng(bs[i].deps) : d[1] \notin InjKinds /\ Resolve(ij, cf, j, d[1], d[2]) = <<j, k>>}
RECURSIVE Closure(_, _)
Closure(E, S) == LET T == S \cup {e[2] : e \in {x \in E : x[1] \in S}} IN IF T = S THEN S ELSE Closure(E, T)
Cyclic(ij, cf, j) == LET E == Edges(ij, cf, j) IN \E e \in E : e[1] \in Closure(E, {e[2]})
Problems(ij, cf, j) == LET bs == cf[ij[j].c] IN
        (IF Duplicate(bs) THEN {"DuplicateBindingException"} ELSE {})
   \cup (IF HoldsOwner(bs) THEN {"SharedInjectorException"} ELSE {})
   \cup (IF Missing(ij, cf, j) THEN {"MissingDependencyException"} ELSE {})
   \cup (IF ~Duplicate(bs) /\ Cyclic(ij, cf, j) THEN {"CyclicDependencyException"} ELSE {})

--------------------------------------------------------------------------------
(* What provides an object.  M: the objects made during the step, id -> [t,   *)
(* deps].  st: [ok, store, used].  Each made object has to be accounted for.  *)
Fixed == {"given", "raw", "rawD", "proto", "ref"}
Lazy == {"lazy", "lazyD", "eager", "eagerD"}
Tls == {"tl", "tlD"}
Bad(st) == [st EXCEPT !.ok = FALSE]
Use(st, o) == [st EXCEPT !.used = @ \cup {o}]
Keep(st, key, o) == [st EXCEPT !.store = With(@, key, o)]
RECURSIVE Provide(_, _, _, _, _, _, _, _), Request(_, _, _, _, _, _, _, _, _), Deps(_, _, _, _, _, _, _, _), Make(_, _, _, _, _, _, _, _, _), Provider(_, _, _, _, _, _, _, _)
\* The dependencies of something that the injector j makes in thread th are the objects os.
Deps(ij, cf, M, th, j, ds, os, st) ==
   IF ds = <<>> THEN st
   ELSE Deps(ij, cf, M, th, j, Tail(ds), Tail(os), IF st.ok THEN Request(ij, cf, M, th, j, Head(ds)[1], Head(ds)[2], Head(os), st) ELSE st)
\* Object o was made now, with tag t and dependencies ds.
Make(ij, cf, M, th, j, t, ds, o, st) ==
   IF ~(o \in DOMAIN M) \/ o \in st.used THEN Bad(st)
   ELSE IF M[o].t # t \/ Len(M[o].deps) # Len(ds) THEN Bad(st)
   ELSE Deps(ij, cf, M, th, j, ds, M[o].deps, Use(st, o))
Provider(ij, cf, M, th, j, bi, p, st) ==
   LET c == ij[j].c
       key == <<c, bi, -1>>
   IN IF key \in DOMAIN st.store THEN (IF st.store[key] = p THEN st ELSE Bad(st))
      ELSE Keep(Make(ij, cf, M, th, j, cf[c][bi].t, cf[c][bi].deps, p, st), key, p)
\* The binding provides object o.
Provide(ij, cf, M, th, j, bi, o, st) ==
   LET c == ij[j].c
       b == cf[c][bi]
       key == <<c, bi, IF b.f \in Tls THEN th ELSE 0>>
       single == b.k \in {"S", "CS"}
       product(ds) == IF ~(o \in DOMAIN M) \/ o \in st.used THEN Bad(st)
                      ELSE IF M[o].t # b.t + 50 \/ Len(M[o].deps) # ds THEN Bad(st) ELSE Use(st, o)
       new == CASE b.f = "fn" -> product(0)
                [] b.f = "obj" -> IF product(1).ok /\ M[o].deps[1] = b.o THEN product(1) ELSE Bad(st)
                [] b.f = "cls" -> IF product(1).ok THEN Provider(ij, cf, M, th, j, bi, M[o].deps[1], product(1)) ELSE Bad(st)
                [] b.k = "V" /\ b.f = "inst" -> Make(ij, cf, M, th, j, 100, b.deps, o, st)
                [] b.k = "VS" -> Make(ij, cf, M, th, j, 101, b.deps, o, st)
                [] OTHER -> Make(ij, cf, M, th, j, b.t, b.deps, o, st)
   IN IF ~st.ok THEN st
      ELSE IF b.f \in Fixed THEN (IF o = b.o THEN st ELSE Bad(st))
      ELSE IF ~single THEN new
      ELSE IF key \in DOMAIN st.store THEN (IF st.store[key] = o THEN st ELSE Bad(st))
      ELSE Keep(new, key, o)
Request(ij, cf, M, th, j, k, n, o, st) ==
   IF k \in InjKinds THEN (IF o = j THEN st ELSE Bad(st))
   ELSE LET r == Resolve(ij, cf, j, k, n) IN IF r = None THEN Bad(st) ELSE Provide(ij, cf, M, th, r[1], r[2], o, st)
\* Everything that creation makes: eager singletons, provided singletons, providers.
AtCreation(b) == b.f \in {"eager", "eagerD", "cls"} \/ (b.k \in {"S", "CS"} /\ b.f \in {"fn", "obj"})
Tagged(M, t) == {o \in DOMAIN M : M[o].t = t}
RECURSIVE Eager(_, _, _, _, _, _)
Eager(ij, cf, M, j, bi, st) ==
   LET bs == cf[ij[j].c] IN
   IF bi > Len(bs) \/ ~st.ok THEN st
   ELSE LET b == bs[bi]
            prov == b.f = "cls" /\ ~(b.k \in {"S", "CS"})
            mine == Tagged(M, IF b.f \in {"eager", "eagerD"} \/ prov THEN b.t ELSE b.t + 50)
        IN Eager(ij, cf, M, j, bi + 1,
                 IF ~AtCreation(b) THEN st
                 ELSE IF Cardinality(mine) # 1 THEN Bad(st)
                 ELSE LET o == CHOOSE x \in mine : TRUE
                      IN IF prov THEN Provider(ij, cf, M, 0, j, bi, o, st) ELSE Provide(ij, cf, M, 0, j, bi, o, st))
RECURSIVE Statics(_, _, _, _, _, _)
Statics(ij, cf, M, j, ss, st) ==
   IF ss = <<>> THEN st ELSE Statics(ij, cf, M, j, Tail(ss), Request(ij, cf, M, 0, j, "S", Head(ss)[2], Head(ss)[3], st))

--------------------------------------------------------------------------------
(* Lifetimes. *)
RECURSIVE Anc(_, _)
Anc(ij, S) == LET T == S \cup ({ij[x].p : x \in S} \ {0}) IN IF T = S THEN S ELSE Anc(ij, T)
RECURSIVE Reach(_, _)
Reach(ob, S) == LET T == S \cup UNION {ob[x].s : x \in S} IN IF T = S THEN S ELSE Reach(ob, T)
Owned(cf, sto, c) == {sto[x] : x \in {y \in DOMAIN sto : y[1] = c /\ ~(y[3] = -1 /\ cf[c][y[2]].k \in {"S", "CS"})}}
                     \cup {cf[c][i].o : i \in {x \in 1 .. Len(cf[c]) : cf[c][x].f \in {"given", "raw", "rawD"} \/ (cf[c][x].f = "obj" /\ ~(cf[c][x].k \in {"S", "CS"}))}}
Roots(ij, cf, sto, sta, hs) ==
   LET live == Anc(ij, hs) IN
   UNION {Owned(cf, sto, c) : c \in {ij[x].c : x \in live}} \cup {sta[s][2] : s \in {x \in DOMAIN sta : sta[x][1] \in live}}
Gones(hap) == {i \in 1 .. Len(hap) : hap[i][1] = "gone"}
Alive(ob, R) == Reach(ob, R \cap DOMAIN ob)
\* The destructions of a step, given the state after it; or2: orphans after it.
Destroyed(hap, ij, cf, sto, ob, sta, hs, or2) ==
   LET R == Roots(ij, cf, sto, sta, hs)
       G == {hap[i][2] : i \in Gones(hap)}
       was == DOMAIN ob \ dead
   IN /\ Cardinality(G) = Cardinality(Gones(hap))            \* once
      /\ G \subseteq was \ Alive(ob, R)                      \* nothing in use
      /\ was \ Alive(ob, R \cup {x[2] : x \in or2}) \subseteq G   \* nothing left
      /\ \A i \in Gones(hap) : ob[hap[i][2]].d = (\E x \in 1 .. i - 1 : hap[x] = <<"del", hap[i][2]>>)
      /\ Cardinality({i \in 1 .. Len(hap) : hap[i][1] = "del"}) = Cardinality({i \in Gones(hap) : ob[hap[i][2]].d})
      /\ dead' = dead \cup G
Pres(hap) == SelectSeq(hap, LAMBDA x : x[1] = "pre")
NoPres(hap) == Pres(hap) = <<>>
MadeMap(made) == [o \in {made[i].id : i \in 1 .. Len(made)} |-> made[CHOOSE i \in 1 .. Len(made) : made[i].id = o]]
\* The objects among those made (values are not tracked) with what they hold.
\* The kinds of their dependencies are those of the binding with their tag.
BindingsOf(cf) == UNION {{cf[c][i] : i \in 1 .. Len(cf[c])} : c \in DOMAIN cf}
Holds(cf, m) == LET bb == {b \in BindingsOf(cf) : b.t = m.t} IN
   IF bb = {} THEN {} ELSE LET b == CHOOSE x \in bb : TRUE IN {m.deps[i] : i \in {x \in 1 .. Len(m.deps) : x <= Len(b.deps) /\ Strong(b.deps[x][1])}}
DForms == {"lazyD", "eagerD", "tlD", "rawD"}
Deleter(cf, t) == \E b \in BindingsOf(cf) : (b.t = t /\ (b.f \in DForms \/ (b.k = "UD" /\ b.f = "inst")))
IsValue(cf, m) == m.t >= 100 \/ \E b \in BindingsOf(cf) : b.t = m.t - 50 /\ b.k = "V"
AddMade(cf, ob, M) == LET new == {o \in DOMAIN M : ~IsValue(cf, M[o])}
   IN [o \in DOMAIN ob \cup new |-> IF o \in new THEN [s |-> Holds(cf, M[o]), d |-> Deleter(cf, M[o].t)] ELSE ob[o]]

--------------------------------------------------------------------------------
(* Steps.  A step records what was made and what happened (hap). *)
\* Creation: i, parent p, bindings bs, result, external objects ext, post and
\* pre calls per configuration object, calls made, statics.
Distinct(made) == \A a, b \in 1 .. Len(made) : made[a].id = made[b].id => a = b
\* The calls of each configuration object ran once and in order, after the eager
\* instances (n of them) were made, with the new injector.
Ran(posts, ran, n, total, i) ==
   /\ Len(ran) = Cardinality(UNION {Rng(posts[k]) : k \in 1 .. Len(posts)})
   /\ \A k \in 1 .. Len(posts) : SelectSeq([x \in 1 .. Len(ran) |-> ran[x][1]], LAMBDA y : y \in Rng(posts[k])) = posts[k]
   /\ \A x \in 1 .. Len(ran) : ran[x][2] >= n /\ ran[x][2] <= total /\ ran[x][3] = i
External(ob, ext, bs) == [o \in DOMAIN ob \cup Rng(ext) |-> IF o \in Rng(ext) THEN [s |-> {}, d |-> \E k \in 1 .. Len(bs) : bs[k].o = o /\ bs[k].f = "rawD"] ELSE ob[o]]
Create(i, p, bs, res, ext, posts, pres, ran, ss, made, hap) ==
   /\ i \notin DOMAIN inj /\ (p = 0 \/ p \in DOMAIN inj) /\ Distinct(made)
   /\ LET ij == With(inj, i, [p |-> p, c |-> i, v |-> FALSE, pres |-> pres])
          cf == With(conf, i, bs)
          P == Problems(ij, cf, i)
          M == MadeMap(made)
          s0 == [ok |-> TRUE, store |-> store, used |-> {}]
          s1 == Eager(ij, cf, M, i, 1, s0)
          s2 == Statics(ij, cf, M, i, ss, s1)
          ob == External(objs, ext, bs)
      IN IF P # {}
         THEN /\ res \in P /\ made = <<>> /\ ran = <<>>
              /\ LET h2 == SelectSeq(hap, LAMBDA x : x[1] # "pre") IN Destroyed(h2, inj, conf, store, ob, stat, handles, orph)
              /\ objs' = ob /\ UNCHANGED <<inj, conf, store, handles, orph, stat>>
         ELSE /\ res = "ok" /\ s2.ok /\ s2.used = DOMAIN M
              /\ Ran(posts, ran, Cardinality(s1.used), Cardinality(s2.used), i)
              /\ inj' = ij /\ conf' = cf /\ store' = s2.store
              /\ objs' = AddMade(cf, ob, M)
              /\ handles' = handles \cup {i}
              /\ stat' = [s \in DOMAIN stat \cup {x[1] : x \in Rng(ss)} |->
                            IF s \in {x[1] : x \in Rng(ss)} THEN <<i, (CHOOSE x \in Rng(ss) : x[1] = s)[3]>> ELSE stat[s]]
              /\ NoPres(hap) /\ Destroyed(hap, ij, cf, s2.store, objs', stat', handles', orph)
              /\ UNCHANGED orph
\* Validation: the same result, but nothing is made or called.
Validate(i, p, bs, res, ext, made, ran) ==
   /\ i \notin DOMAIN inj /\ made = <<>> /\ ran = <<>>
   /\ LET ij == With(inj, i, [p |-> p, c |-> i, v |-> TRUE, pres |-> <<>>])
          cf == With(conf, i, bs)
          P == Problems(ij, cf, i)
      IN IF P # {} THEN res \in P /\ UNCHANGED <<inj, conf>>
         ELSE res = "ok" /\ inj' = ij /\ conf' = cf
   /\ UNCHANGED <<store, objs, dead, handles, orph, stat>>
Proto(i, p, q, made, hap) ==
   /\ i \notin DOMAIN inj /\ made = <<>> /\ hap = <<>>
   /\ inj' = With(inj, i, [p |-> p, c |-> inj[q].c, v |-> FALSE, pres |-> <<>>])
   /\ handles' = handles \cup {i} /\ UNCHANGED <<conf, store, objs, dead, orph, stat>>
\* A request.  d: what to do without a binding; o: the result or -1; def: the
\* default or 0; supplied: calls of the supplier.
After(st, M, hap, extra) ==
   /\ store' = st.store /\ objs' = AddMade(conf, [o \in DOMAIN objs \cup extra |-> IF o \in extra THEN [s |-> {}, d |-> FALSE] ELSE objs[o]], M)
   /\ NoPres(hap) /\ Destroyed(hap, inj, conf, store', objs', stat, handles, orph)
   /\ UNCHANGED <<inj, conf, handles, orph, stat>>
Get(t, i, k, n, d, res, o, def, supplied, made, hap) ==
   LET r == IF k \in InjKinds THEN <<i, 0>> ELSE Resolve(inj, conf, i, k, n)
       M == MadeMap(made)
       s0 == [ok |-> TRUE, store |-> store, used |-> {}]
       st == Request(inj, conf, M, t, i, k, n, o, s0)
       extra == IF def # 0 /\ k \in {"S", "CS", "U", "CU"} THEN {def} ELSE {}
   IN /\ Distinct(made)
      /\ IF r # None
         THEN res = "ok" /\ st.ok /\ st.used = DOMAIN M /\ supplied = 0 /\ (d = "sup" => def = 0) /\ After(st, M, hap, extra)
         ELSE /\ made = <<>>
              /\ CASE d = "none" -> res = "NoBindingException" /\ o = -1
                   [] d = "null" -> res = "ok" /\ o = 0
                   [] d = "def" -> res = "ok" /\ o = def
                   [] OTHER -> res = "ok" /\ o = def /\ supplied = 1
              /\ After(s0, M, hap, extra)
\* Whether there is a binding of exactly the kind and the name.
Has(i, k, n, r) == r = (Find(inj, conf, i, k, n) # None) /\ UNCHANGED ivars
\* Iteration visits the singletons of the injector, thread local ones on demand.
RECURSIVE Visit(_, _, _, _, _, _, _)
Visit(M, t, i, bis, os, st, fuel) ==
   IF bis = {} \/ ~st.ok THEN st
   ELSE LET bi == CHOOSE x \in bis : TRUE
            hit == {x \in Rng(os) : Provide(inj, conf, M, t, i, bi, x, st).ok}
        IN IF hit = {} THEN Bad(st)
           ELSE Visit(M, t, i, bis \ {bi}, os, Provide(inj, conf, M, t, i, bi, CHOOSE x \in hit : TRUE, st), fuel)
Iterate(t, i, k, tl, os, made, hap) ==
   LET bs == conf[inj[i].c]
       kk == IF k = "CS" THEN "CS" ELSE "S"
       bis == {x \in 1 .. Len(bs) : bs[x].k = kk /\ (tl \/ ~(bs[x].f \in Tls))}
       M == MadeMap(made)
       st == Visit(M, t, i, bis, os, [ok |-> TRUE, store |-> store, used |-> {}], 0)
   IN /\ Distinct(made) /\ st.ok /\ st.used = DOMAIN M
      /\ Len(os) = Cardinality(bis) /\ Cardinality(Rng(os)) = Len(os)
      /\ After(st, M, hap, {})
\* The user lets go of an injector.
Before(hap, i, ids, gone) == \A a, b \in 1 .. Len(hap) : hap[a][1] = "pre" /\ hap[a][2] \in ids /\ hap[b][1] = "gone" /\ hap[b][2] \in gone => a < b
Drop(i, made, hap) ==
   LET hs == handles \ {i}
       was == Anc(inj, handles)
       now == Anc(inj, hs)
       ends == was \ now
       cgone == {inj[x].c : x \in was} \ {inj[x].c : x \in now}
       Ids(x) == UNION {Rng(inj[x].pres[k]) : k \in 1 .. Len(inj[x].pres)}
       pre == [x \in 1 .. Len(Pres(hap)) |-> Pres(hap)[x][2]]
       lost == {x \in DOMAIN store : x[1] \in cgone /\ x[3] > 0}
       or2 == orph \cup {<<x[3], store[x]>> : x \in lost}
   IN /\ i \in handles /\ made = <<>>
      /\ handles' = hs
      /\ Rng(pre) = UNION {Ids(x) : x \in ends} /\ Len(pre) = Cardinality(Rng(pre))
      /\ \A x \in ends : \A k \in 1 .. Len(inj[x].pres) : SelectSeq(pre, LAMBDA y : y \in Rng(inj[x].pres[k])) = inj[x].pres[k]
      /\ \A x \in ends : inj[x].c \in cgone => Before(hap, x, Ids(x), Owned(conf, store, inj[x].c))
      /\ Destroyed(hap, inj, conf, store, objs, stat, hs, or2)
      /\ orph' = {x \in or2 : x[2] \notin dead'}
      /\ stat' = [s \in DOMAIN stat |-> IF stat[s][1] \in ends THEN <<0, 0>> ELSE stat[s]]
      /\ UNCHANGED <<inj, conf, store, objs>>
Exit(t, hap) ==
   LET sto == [x \in {y \in DOMAIN store : y[3] # t} |-> store[x]]
       or2 == {x \in orph : x[1] # t}
   IN /\ store' = sto /\ orph' = or2 /\ NoPres(hap)
      /\ Destroyed(hap, inj, conf, sto, objs, stat, handles, or2)
      /\ UNCHANGED <<inj, conf, objs, handles, stat>>
\* An injector of its own with n named values, some of them in its parent: exactly these are found, each with its own value.
Many(n, res, found, right, extra, got) == res = "ok" /\ found = n /\ right = n /\ extra = 0 /\ got = n /\ UNCHANGED ivars
Static(s, o) == (IF s \in DOMAIN stat THEN o = stat[s][2] ELSE o = 0) /\ UNCHANGED ivars
=============================================================================
