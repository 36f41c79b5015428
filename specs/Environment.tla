---------------------------- MODULE Environment ----------------------------
(* The environment configuration: what property texts and type specification *)
(* texts bind.  Texts and names are sequences of bytes; a text is known by   *)
(* the path of its file, and includes are relative to the including file.    *)
EXTENDS Properties
Last(s) == s[Len(s)]
Front(s) == SubSeq(s, 1, Len(s) - 1)
Range(s) == {s[i] : i \in 1 .. Len(s)}
RECURSIVE DropL(_)
DropL(s) == IF s # <<>> /\ Blank(Head(s)) THEN DropL(Tail(s)) ELSE s
RECURSIVE DropR(_)
DropR(s) == IF s # <<>> /\ Blank(Last(s)) THEN DropR(Front(s)) ELSE s
RECURSIVE Dir(_)
Dir(p) == IF p = <<>> \/ Last(p) = 47 THEN p ELSE Dir(Front(p))
-----------------------------------------------------------------------------
(* Documents: the nodes of a text, with what it includes in place.           *)
File(fs, n) == (CHOOSE f \in fs : f[1] = n)[2]
Merge(a, b) == [r |-> a.r \cup b.r, items |-> a.items \o b.items]
Bad(e) == [r |-> {e}, items |-> <<>>]
Nothing == [r |-> {}, items |-> <<>>]
RECURSIVE Load(_, _, _, _), Walk(_, _, _, _, _, _)
Load(fs, n, at, fuel) ==
   IF ~\E f \in fs : f[1] = n THEN Bad("missing")
   ELSE IF fuel = 0 THEN Bad("open")
   ELSE LET p == Parse(File(fs, n)) IN
        IF p.r = "error" THEN Bad("syntax") ELSE IF p.r = "any" THEN Bad("open")
        ELSE Walk(fs, n, p.nodes, 1, at, fuel)
\* Items: <<path, kind, value>>; base is the path of the enclosing blocks.
Walk(fs, n, ns, i, path, fuel) ==
   IF i > Len(ns) THEN Nothing
   ELSE LET x == ns[i]
            \* The blocks that enclose this node.
            RECURSIVE Up(_, _)
            Up(j, d) == IF d = 0 THEN path
                        ELSE LET k == CHOOSE k \in 1 .. j : ns[k][1] = d - 1 /\ ns[k][2] = "block" /\ \A m \in k + 1 .. j : ~(ns[m][1] = d - 1 /\ ns[m][2] = "block")
                             IN Append(Up(k - 1, d - 1), Final(ns[k][3], 1))
            here == Up(i - 1, x[1])
            rest == Walk(fs, n, ns, i + 1, path, fuel)
        IN IF x[2] = "include" THEN Merge(Load(fs, Dir(n) \o DropL(DropR(x[3])), here, fuel - 1), rest)
           ELSE IF x[2] \in {"value", "block"}
                THEN Merge([r |-> IF Final(x[3], 1) = <<>> THEN {"open"} ELSE {}, items |-> <<<<Append(here, Final(x[3], 1)), x[2], Final(x[4], 1)>>>>], rest)
           ELSE rest
Doc(fs, n) == LET d == Load(fs, n, <<>>, 4) IN
   \* A name that occurs twice in one document is left open.
   IF \E i, j \in 1 .. Len(d.items) : i < j /\ d.items[i][1] = d.items[j][1] THEN Merge(d, Bad("open")) ELSE d
-----------------------------------------------------------------------------
(* Types and values.                                                         *)
\* Texts of type names, and the types.
TypeNames == {<<<<98, 121, 116, 101>>, "byte">>, <<<<115, 104, 111, 114, 116>>, "short">>, <<<<105, 110, 116>>, "int">>, <<<<108, 111, 110, 103>>, "long">>,
   <<<<102, 108, 111, 97, 116>>, "float">>, <<<<100, 111, 117, 98, 108, 101>>, "double">>, <<<<115, 116, 114, 105, 110, 103>>, "string">>,
   <<<<99, 104, 97, 114>>, "char">>, <<<<98, 111, 111, 108, 101, 97, 110>>, "boolean">>, <<<<117, 114, 105>>, "uri">>,
   <<<<117, 110, 115, 105, 103, 110, 101, 100, 32, 98, 121, 116, 101>>, "ubyte">>, <<<<117, 110, 115, 105, 103, 110, 101, 100, 32, 115, 104, 111, 114, 116>>, "ushort">>,
   <<<<117, 110, 115, 105, 103, 110, 101, 100, 32, 105, 110, 116>>, "uint">>, <<<<117, 110, 115, 105, 103, 110, 101, 100, 32, 108, 111, 110, 103>>, "ulong">>,
   <<<<119, 111, 114, 100>>, "word">>, <<<<115, 104, 97, 112, 101>>, "shape">>}
Integers == {"byte", "short", "int", "long", "ubyte", "ushort", "uint", "ulong"}
HasBlank(s) == \E i \in 1 .. Len(s) : Blank(s[i]) \/ Break(s[i])
Lower(s) == [i \in 1 .. Len(s) |-> IF s[i] \in 65 .. 90 THEN s[i] + 32 ELSE s[i]]
FILE == <<102, 105, 108, 101, 58>>
HTTP == <<104, 116, 116, 112>>
ZIP == <<46, 122, 105, 112>>
Starts(s, p) == Len(s) >= Len(p) /\ SubSeq(s, 1, Len(p)) = p
Ends(s, p) == Len(s) >= Len(p) /\ SubSeq(s, Len(s) - Len(p) + 1, Len(s)) = p
\* What a text means as a value of a type: "ok" with the value, "fail" or "open".
V(r, v, n) == [r |-> r, v |-> v, n |-> n]
Value(t, s) ==
   CASE t = "string" -> V("ok", s, 0)
     [] t \in Integers -> IF HasBlank(s) THEN V("open", <<>>, 0) ELSE IF Integer(s) /\ InRange(t, s) THEN V("ok", Canonical(s), 0) ELSE V("fail", <<>>, 0)
     [] t \in {"float", "double"} -> IF HasBlank(s) THEN V("open", <<>>, 0) ELSE IF Plain(s) THEN V("ok", <<>>, Thousandths(s)) ELSE IF NoNumber(s) THEN V("fail", <<>>, 0) ELSE V("open", <<>>, 0)
     [] t = "boolean" -> IF Lower(s) = <<116, 114, 117, 101>> THEN V("ok", <<49>>, 0) ELSE IF Lower(s) = <<102, 97, 108, 115, 101>> THEN V("ok", <<48>>, 0)
                         ELSE IF HasBlank(s) THEN V("open", <<>>, 0) ELSE V("fail", <<>>, 0)
     [] t = "char" -> IF Len(s) = 1 THEN V("ok", s, 0) ELSE IF s = <<>> THEN V("fail", <<>>, 0) ELSE V("open", <<>>, 0)
     [] t = "uri" -> IF Starts(s, HTTP) \/ Ends(s, ZIP) \/ s = <<>> \/ s = FILE THEN V("open", <<>>, 0)
                     ELSE V("ok", IF Starts(s, FILE) THEN SubSeq(s, 6, Len(s)) ELSE s, 0)
     \* The types of the harness: texts that do not start with an exclamation mark.
     [] OTHER -> IF At(s, 1) = EXCL THEN V("fail", <<>>, 0) ELSE V("ok", s, 0)
\* A type specification: the type, and the default if it has one.
EqAt(s) == IF \E i \in 1 .. Len(s) : s[i] = EQ THEN CHOOSE i \in 1 .. Len(s) : s[i] = EQ /\ \A j \in 1 .. i - 1 : s[j] # EQ ELSE 0
Known(t) == \E x \in TypeNames : x[1] = t
TypeOf(t) == (CHOOSE x \in TypeNames : x[1] = t)[2]
None == V("none", <<>>, 0)
Typed(s) == LET e == EqAt(s)
                t == IF e = 0 THEN s ELSE DropR(SubSeq(s, 1, e - 1))
                d == IF e = 0 THEN <<>> ELSE DropL(SubSeq(s, e + 1, Len(s)))
            IN IF ~Known(t) THEN [r |-> IF Known(DropL(DropR(t))) \/ s = <<>> THEN "open" ELSE "unknown", type |-> "string", def |-> None]
               ELSE [r |-> "ok", type |-> TypeOf(t),
                     def |-> IF e = 0 THEN None ELSE IF d = <<>> THEN V("open", <<>>, 0) ELSE Value(TypeOf(t), d)]
-----------------------------------------------------------------------------
(* Cascaded type specifications: a set of [path, kind, type, def].           *)
Spec1(items) == {LET x == items[i]  t == Typed(x[3]) IN
                   [path |-> x[1], kind |-> x[2], type |-> IF x[2] = "value" THEN t.type ELSE "group", def |-> IF x[2] = "value" THEN t.def ELSE None]
                 : i \in 1 .. Len(items)}
Under(p, q) == Len(q) >= Len(p) /\ SubSeq(q, 1, Len(p)) = p
\* A block without any value in it.
Hollow(S, b) == b.kind = "block" /\ ~\E x \in S : x.kind = "value" /\ Under(b.path, x.path)
Clash(S, T) == {<<x, y>> \in S \X T : x.path = y.path /\ x.kind # y.kind}
Override(S, T) == {x \in S : ~\E y \in T : y.path = x.path} \cup T
RECURSIVE Cascade(_, _)
\* The specifications, and how that went.
Cascade(docs, acc) ==
   IF docs = <<>> THEN acc
   ELSE LET T == Head(docs)  c == Clash(acc.specs, T)
            how == IF c = {} THEN {} ELSE IF \E x \in c : ~Hollow(acc.specs, x[1]) /\ ~Hollow(T, x[2]) THEN {"clash"} ELSE {"open"}
        IN Cascade(Tail(docs), [r |-> acc.r \cup how, specs |-> Override(acc.specs, T)])
-----------------------------------------------------------------------------
(* The bindings.                                                             *)
\* Env: the documents of the inputs; specs: the cascade.
Prefixes(p) == {SubSeq(p, 1, n) : n \in 1 .. Len(p) - 1}
SpecAt(S, p) == {x \in S : x.path = p /\ x.kind = "value"}
RECURSIVE Twice(_)
Twice(ds) == IF Len(ds) < 2 THEN FALSE
             ELSE \/ \E i \in 1 .. Len(Head(ds).items), j \in 2 .. Len(ds) : \E k \in 1 .. Len(ds[j].items) :
                        /\ Head(ds).items[i][1] = ds[j].items[k][1]
                        /\ ~(Head(ds).items[i][2] = "block" /\ ds[j].items[k][2] = "block")
                  \/ Twice(Tail(ds))
RECURSIVE Items(_), Errors(_)
Items(ds) == IF ds = <<>> THEN {} ELSE Range(Head(ds).items) \cup Items(Tail(ds))
Errors(ds) == IF ds = <<>> THEN {} ELSE Head(ds).r \cup Errors(Tail(ds))
B(p, t, v) == <<p, t, v>>
\* hard: the set of hard wired specifications.
Build(fs, ins, sps, hard) ==
   LET envs == [i \in 1 .. Len(ins) |-> Doc(fs, ins[i])]
       docs == [i \in 1 .. Len(sps) |-> Doc(fs, sps[i])]
       unknown == \E i \in 1 .. Len(docs) : \E j \in 1 .. Len(docs[i].items) : docs[i].items[j][2] = "value" /\ Typed(docs[i].items[j][3]).r = "unknown"
       wilds == \E i \in 1 .. Len(docs) : \E j \in 1 .. Len(docs[i].items) : docs[i].items[j][2] = "value" /\ Typed(docs[i].items[j][3]).r = "open"
       stale == \E i \in 1 .. Len(docs) : \E x \in Spec1(docs[i].items) : x.def.r \in {"fail"}
       cas == Cascade([i \in 1 .. Len(docs) |-> Spec1(docs[i].items)] \o <<hard>>, [r |-> {}, specs |-> {}])
       S == cas.specs
       E == Items(envs)
       \* A value in the environment where the specification has a block.
       odd == \E e \in E : e[2] = "value" /\ \E x \in S : x.path = e[1] /\ x.kind = "block"
       typeAt(p) == IF SpecAt(S, p) = {} THEN "string" ELSE (CHOOSE x \in SpecAt(S, p) : TRUE).type
       given == {B(e[1], typeAt(e[1]), Value(typeAt(e[1]), e[3])) : e \in {x \in E : x[2] = "value"}}
       blocks == {e[1] : e \in {x \in E : x[2] = "block"}}
       dflt == {x \in S : x.kind = "value" /\ x.def # None /\ ~\E e \in E : e[1] = x.path /\ e[2] = "value"}
       ignored == {x \in dflt : x.path \in blocks}
       defaults == {B(x.path, x.type, x.def) : x \in dflt \ ignored}
       certain == given \cup {b \in defaults : b[3].r # "open"}
       groups == UNION {Prefixes(b[1]) : b \in certain} \cup blocks
       errors == (IF "syntax" \in Errors(envs) \cup Errors(docs) THEN {"SyntaxErrorException"} ELSE {})
                 \cup (IF "missing" \in Errors(envs) \cup Errors(docs) THEN {"NotFoundException", "FileNotFoundException"} ELSE {})
                 \cup (IF unknown \/ "clash" \in cas.r THEN {"EnvironmentConfigurationException"} ELSE {})
                 \cup (IF \E b \in given \cup defaults : b[3].r = "fail" THEN {"ConversionException"} ELSE {})
       open == "open" \in Errors(envs) \cup Errors(docs) \cup cas.r \/ wilds \/ odd \/ Twice(envs)
               \/ (\E b \in given \cup defaults : b[3].r = "open") \/ stale
   IN [open |-> open, errors |-> errors,
       must |-> {<<b[1], b[2], b[3].v, b[3].n>> : b \in {x \in certain : x[3].r = "ok"}} \cup {<<p, "group", <<>>, 0>> : p \in groups},
       \* What may be bound as well.
       may |-> {<<x.path, x.type>> : x \in ignored}]
Expected(e, res, bound) ==
   IF e.open THEN TRUE
   ELSE IF e.errors # {} THEN res \in e.errors
   ELSE /\ res = "ok"
        /\ e.must \subseteq bound
        /\ \A b \in bound \ e.must : <<b[1], b[2]>> \in e.may
=============================================================================
