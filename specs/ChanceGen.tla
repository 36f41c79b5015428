------------------------------ MODULE ChanceGen ------------------------------
EXTENDS Chance, TLC
\* Small ranges of every type of number, from every kind of lower bound.
Types == {"int32", "int64", "uint32", "uint64", "double", "float"}
Lowers == {"zero", "one", "minusone", "minuswidth", "large", "minuslarge", "least", "greatest"}
VARIABLES type, lower, width, seeded, done
Init == type \in Types /\ lower \in Lowers /\ width \in {0, 1, 2, 3, 7, 15} /\ seeded \in {"seed", "own"} /\ done = FALSE
        /\ (type \in {"uint32", "uint64"} => lower \in {"zero", "one", "large", "least", "greatest"})
Step == ~done /\ done' = TRUE /\ UNCHANGED <<type, lower, width, seeded>>
Emit == PrintT(<<"SCRIPT", "range " \o type \o " " \o lower \o " " \o ToString(width) \o " " \o seeded>>)
Spec == Init /\ [][Step]_<<type, lower, width, seeded, done>>
Bytes == {0, 9, 10, 127, 128, 255}
Laws == /\ \A a, b, c \in Bytes \X Bytes : LET x == Compared(a, b) IN
           /\ x.lt = x.ge \/ ~x.lt = x.ge
           /\ Cardinality({k \in {"lt", "gt", "eq"} : x[k]}) = 1
           /\ (Less(a, b) /\ Less(b, c)) => Less(a, c)
        /\ Text(<<0, 18, 171, 255>>) = <<48, 48, 49, 50, 97, 98, 102, 102, 45>>
=============================================================================
