----------------------------- MODULE DigestGen -----------------------------
(* A digest object that is given pieces, whose lengths are those around the   *)
(* borders of the blocks and of the padding, asked, and started again; and    *)
(* contents of every length up to two blocks.                                 *)
EXTENDS Digest, TLC
CONSTANTS MostSteps, MostLength
VARIABLES kind, steps, total, done
vars == <<kind, steps, total, done>>
Border(k) == IF k \in DOMAIN Others THEN RateOf(Others[k][2]) ELSE IF k \in {"sha3", "keccak"} THEN RateOf(256) ELSE IF k = "crc32" THEN 16 ELSE 64
\* To the border, and around it; a byte, nothing, and more than a block.
Pieces(k) == {0, 1, Border(k) - 1, Border(k), Border(k) + 1, Border(k) - 9, 3}
Init == /\ done = FALSE
        /\ \/ steps = <<>> /\ total = 0 /\ kind \in Kinds \cup DOMAIN Others
           \/ steps = <<"whole">> /\ total \in 0 .. MostLength /\ kind \in Kinds
Adding == /\ ~done /\ Len(steps) < MostSteps /\ steps # <<"whole">>
          /\ \/ \E n \in Pieces(kind) : steps' = Append(steps, "add " \o ToString(n)) /\ total' = total + n
             \/ steps # <<>> /\ steps[Len(steps)] # "get" /\ steps' = Append(steps, "get") /\ UNCHANGED total
             \/ steps # <<>> /\ steps[Len(steps)] # "reset" /\ steps' = Append(steps, "reset") /\ total' = 0
          /\ UNCHANGED <<kind, done>>
End == ~done /\ steps # <<>> /\ (Len(steps) = MostSteps \/ steps = <<"whole">>) /\ done' = TRUE /\ UNCHANGED <<kind, steps, total>>
Step == Adding \/ End
RECURSIVE Joined(_)
Joined(x) == IF x = <<>> THEN "" ELSE "|" \o Head(x) \o Joined(Tail(x))
Line == IF steps = <<"whole">> THEN "whole " \o kind \o " " \o ToString(total) ELSE "new " \o kind \o Joined(steps) \o "|get"
Emit == done' => PrintT(<<"SCRIPT", Line>>)
Spec == Init /\ [][Step]_vars
Abc == <<97, 98, 99>>
Answers == [crc32 |-> <<53, 36, 65, 194>>,
            md5 |-> <<144, 1, 80, 152, 60, 210, 79, 176, 214, 150, 63, 125, 40, 225, 127, 114>>,
            sha1 |-> <<169, 153, 62, 54, 71, 6, 129, 106, 186, 62, 37, 113, 120, 80, 194, 108, 156, 208, 216, 157>>,
            sha256 |-> <<186, 120, 22, 191, 143, 1, 207, 234, 65, 65, 64, 222, 93, 174, 34, 35, 176, 3, 97, 163, 150, 23, 122, 156, 180, 16, 255, 97, 242, 0, 21, 173>>,
            sha3 |-> <<58, 152, 93, 167, 79, 226, 37, 178, 4, 92, 23, 45, 107, 211, 144, 189, 133, 95, 8, 110, 62, 157, 82, 91, 70, 191, 226, 69, 17, 67, 21, 50>>,
            keccak |-> <<78, 3, 101, 122, 234, 69, 169, 79, 199, 212, 123, 168, 38, 200, 214, 103, 192, 209, 230, 227, 58, 100, 160, 54, 236, 68, 245, 143, 161, 45, 108, 69>>]
Laws ==
   \* The answers that the standards give.
   /\ (steps = <<>> /\ kind \in Kinds) => Digest(kind, Abc) = Answers[kind]
   \* Padding fills blocks, and begins with one bit.
   /\ steps = <<"whole">> => LET s == Zeros(total)
                                 p == Padded(s, BigLength(s))
                             IN Len(p) % 64 = 0 /\ Len(p) >= total + 9 /\ Len(p) < total + 73 /\ p[total + 1] = 128
   /\ steps = <<>> => \A x \in {1, -1, 5, Least, 2147483647, -123456789, 65536}, n \in 2 .. 30 : Rotr(Rotl(x, n), n) = x /\ Add(x, Flip(x)) = -1 /\ Rotl(x, n) = Rotr(x, 32 - n)
=============================================================================
