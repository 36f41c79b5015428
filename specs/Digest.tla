------------------------------- MODULE Digest -------------------------------
(* Digests of sequences of bytes: CRC-32, MD5 (RFC 1321), SHA-1 and SHA-256   *)
(* (FIPS 180-4), SHA-3 (FIPS 202) and Keccak (its submission).                *)
(*                                                                            *)
(* A word is a number of 32 bits, with a sign; a lane of Keccak is two words, *)
(* the lower one first.                                                       *)
EXTENDS Integers, Sequences, SequencesExt, Bitwise, DigestConstants
Least == -2147483647 - 1
Powers == <<1, 2, 4, 8, 16, 32, 64, 128, 256, 512, 1024, 2048, 4096, 8192, 16384, 32768, 65536, 131072, 262144, 524288, 1048576, 2097152, 4194304,
            8388608, 16777216, 33554432, 67108864, 134217728, 268435456, 536870912, 1073741824>>
Pow(n) == Powers[n + 1]
\* Shifts, left by 1 to 30 bits, right by 1 to 31.
Left(x, n) == ((x & (Pow(31 - n) - 1)) * Pow(n)) ^^ (IF (x & Pow(31 - n)) # 0 THEN Least ELSE 0)
Right(x, n) == IF n = 31 THEN (IF x < 0 THEN 1 ELSE 0) ELSE IF x >= 0 THEN x \div Pow(n) ELSE ((x - Least) \div Pow(n)) + Pow(31 - n)
Rotl(x, n) == Left(x, n) ^^ Right(x, 32 - n)
Rotr(x, n) == Right(x, n) ^^ Left(x, 32 - n)
Flip(x) == -1 - x
Add(x, y) == LET lo == (x & 65535) + (y & 65535)
                 hi == Right(x, 16) + Right(y, 16) + (lo \div 65536)
             IN Left(hi & 65535, 16) ^^ (lo & 65535)
Add3(x, y, z) == Add(Add(x, y), z)
Zeros(n) == [i \in 1 .. n |-> 0]
ByteOf(x, i) == IF i = 0 THEN x & 255 ELSE Right(x, 8 * i) & 255
LittleBytes(x) == <<ByteOf(x, 0), ByteOf(x, 1), ByteOf(x, 2), ByteOf(x, 3)>>
BigBytes(x) == <<ByteOf(x, 3), ByteOf(x, 2), ByteOf(x, 1), ByteOf(x, 0)>>
Big(s, i) == Left(s[i], 24) ^^ ((s[i + 1] * 65536) + (s[i + 2] * 256) + s[i + 3])
Little(s, i) == Left(s[i + 3], 24) ^^ ((s[i + 2] * 65536) + (s[i + 1] * 256) + s[i])
Flat(f(_), ws) == FoldLeft(LAMBDA r, w : r \o f(w), <<>>, ws)
UpTo(n) == [i \in 1 .. n |-> i]
Block(s, size, b) == SubSeq(s, size * (b - 1) + 1, size * b)
----------------------------------------------------------------------------
\* A bit, zeros, and the number of bits, to a multiple of 64 bytes.
Gap(n) == (119 - (n % 64)) % 64
Padded(s, length) == s \o <<128>> \o Zeros(Gap(Len(s))) \o length
BigLength(s) == Zeros(4) \o BigBytes(8 * Len(s))
LittleLength(s) == LittleBytes(8 * Len(s)) \o Zeros(4)
----------------------------------------------------------------------------
Crc(s) == LET bit(c, i) == IF (c & 1) # 0 THEN Right(c, 1) ^^ Polynomial ELSE Right(c, 1)
          IN BigBytes(Flip(FoldLeft(LAMBDA c, b : FoldLeft(bit, c ^^ b, UpTo(8)), -1, s)))
----------------------------------------------------------------------------
Turns == << <<7, 12, 17, 22>>, <<5, 9, 14, 20>>, <<4, 11, 16, 23>>, <<6, 10, 15, 21>> >>
Md5Step(v, i, w) ==
   LET r == (i - 1) \div 16
       k == i - 1
       f == CASE r = 0 -> (v[2] & v[3]) ^^ (Flip(v[2]) & v[4])
              [] r = 1 -> (v[4] & v[2]) ^^ (Flip(v[4]) & v[3])
              [] r = 2 -> (v[2] ^^ v[3]) ^^ v[4]
              [] OTHER -> v[3] ^^ (Flip(Flip(v[2]) & v[4]))
       g == CASE r = 0 -> k [] r = 1 -> ((5 * k) + 1) % 16 [] r = 2 -> ((3 * k) + 5) % 16 [] OTHER -> (7 * k) % 16
       t == Add(Add3(v[1], f, w[g + 1]), Sines[i])
   IN <<v[4], Add(v[2], Rotl(t, Turns[r + 1][(k % 4) + 1])), v[2], v[3]>>
Md5(s) ==
   LET p == Padded(s, LittleLength(s))
       one(h, b) == LET w == [i \in 1 .. 16 |-> Little(Block(p, 64, b), 4 * i - 3)]
                        v == FoldLeft(LAMBDA x, i : Md5Step(x, i, w), h, UpTo(64))
                    IN <<Add(h[1], v[1]), Add(h[2], v[2]), Add(h[3], v[3]), Add(h[4], v[4])>>
   IN Flat(LittleBytes, FoldLeft(one, SubSeq(Start5, 1, 4), UpTo(Len(p) \div 64)))
----------------------------------------------------------------------------
Sha1Words(b) == FoldLeft(LAMBDA w, i : Append(w, Rotl((w[i - 3] ^^ w[i - 8]) ^^ (w[i - 14] ^^ w[i - 16]), 1)), [i \in 1 .. 16 |-> Big(b, 4 * i - 3)], [i \in 1 .. 64 |-> i + 16])
Sha1Step(v, i, w) ==
   LET r == (i - 1) \div 20
       f == CASE r = 0 -> (v[2] & v[3]) ^^ (Flip(v[2]) & v[4])
              [] r = 2 -> ((v[2] & v[3]) ^^ (v[2] & v[4])) ^^ (v[3] & v[4])
              [] OTHER -> (v[2] ^^ v[3]) ^^ v[4]
   IN <<Add(Add3(Rotl(v[1], 5), f, v[5]), Add(Adds[r + 1], w[i])), v[1], Rotl(v[2], 30), v[3], v[4]>>
Sha1(s) ==
   LET p == Padded(s, BigLength(s))
       one(h, b) == LET w == Sha1Words(Block(p, 64, b))
                        v == FoldLeft(LAMBDA x, i : Sha1Step(x, i, w), h, UpTo(80))
                    IN <<Add(h[1], v[1]), Add(h[2], v[2]), Add(h[3], v[3]), Add(h[4], v[4]), Add(h[5], v[5])>>
   IN Flat(BigBytes, FoldLeft(one, Start5, UpTo(Len(p) \div 64)))
----------------------------------------------------------------------------
Small0(x) == (Rotr(x, 7) ^^ Rotr(x, 18)) ^^ Right(x, 3)
Small1(x) == (Rotr(x, 17) ^^ Rotr(x, 19)) ^^ Right(x, 10)
Sha256Words(b) == FoldLeft(LAMBDA w, i : Append(w, Add(Add(Small1(w[i - 2]), w[i - 7]), Add(Small0(w[i - 15]), w[i - 16]))), [i \in 1 .. 16 |-> Big(b, 4 * i - 3)], [i \in 1 .. 48 |-> i + 16])
Sha256Step(v, i, w) ==
   LET s1 == (Rotr(v[5], 6) ^^ Rotr(v[5], 11)) ^^ Rotr(v[5], 25)
       ch == (v[5] & v[6]) ^^ (Flip(v[5]) & v[7])
       t1 == Add(Add3(v[8], s1, ch), Add(CubeRoots[i], w[i]))
       s0 == (Rotr(v[1], 2) ^^ Rotr(v[1], 13)) ^^ Rotr(v[1], 22)
       mj == ((v[1] & v[2]) ^^ (v[1] & v[3])) ^^ (v[2] & v[3])
   IN <<Add3(t1, s0, mj), v[1], v[2], v[3], Add(v[4], t1), v[5], v[6], v[7]>>
Sha256(s) ==
   LET p == Padded(s, BigLength(s))
       one(h, b) == LET w == Sha256Words(Block(p, 64, b))
                        v == FoldLeft(LAMBDA x, i : Sha256Step(x, i, w), h, UpTo(64))
                    IN <<Add(h[1], v[1]), Add(h[2], v[2]), Add(h[3], v[3]), Add(h[4], v[4]), Add(h[5], v[5]), Add(h[6], v[6]), Add(h[7], v[7]), Add(h[8], v[8])>>
   IN Flat(BigBytes, FoldLeft(one, SquareRoots, UpTo(Len(p) \div 64)))
----------------------------------------------------------------------------
\* Lane <<x, y>> of the state is the one at 5 y + x + 1.
At(x, y) == (5 * y) + x + 1
XorL(a, b) == <<a[1] ^^ b[1], a[2] ^^ b[2]>>
RotL(a, n) == LET b == IF n >= 32 THEN <<a[2], a[1]>> ELSE a
                  m == n % 32
              IN IF m = 0 THEN b ELSE <<Left(b[1], m) ^^ Right(b[2], 32 - m), Left(b[2], m) ^^ Right(b[1], 32 - m)>>
\* By how much each lane is turned: the t-th on the walk from <<1, 0>> by (t + 1)(t + 2) / 2.
Walk == FoldLeft(LAMBDA r, t : [at |-> <<r.at[2], ((2 * r.at[1]) + (3 * r.at[2])) % 5>>, by |-> [r.by EXCEPT ![At(r.at[1], r.at[2])] = (((t + 1) * t) \div 2) % 64]],
                 [at |-> <<1, 0>>, by |-> Zeros(25)], UpTo(24))
Offsets == Walk.by
\* The constants of the rounds, from a register that is shifted.
Shifted(r) == LET d == 2 * r IN IF d >= 256 THEN (d - 256) ^^ 113 ELSE d
Bits == FoldLeft(LAMBDA q, i : [r |-> Shifted(q.r), b |-> Append(q.b, q.r % 2)], [r |-> 1, b |-> <<>>], UpTo(168)).b
RoundConstant(k) == LET b(j) == Bits[(7 * (k - 1)) + j + 1]
                    IN << b(0) + (2 * b(1)) + (8 * b(2)) + (128 * b(3)) + (32768 * b(4)) + (IF b(5) = 1 THEN Least ELSE 0), IF b(6) = 1 THEN Least ELSE 0 >>
RoundConstants == [k \in 1 .. 24 |-> RoundConstant(k)]
Theta(a) == LET c == [i \in 1 .. 5 |-> XorL(XorL(XorL(a[At(i - 1, 0)], a[At(i - 1, 1)]), XorL(a[At(i - 1, 2)], a[At(i - 1, 3)])), a[At(i - 1, 4)])]
                d == FoldLeft(LAMBDA r, i : Append(r, XorL(c[((i + 3) % 5) + 1], RotL(c[(i % 5) + 1], 1))), <<>>, UpTo(5))
            IN FoldLeft(LAMBDA r, i : Append(r, XorL(a[i], d[((i - 1) % 5) + 1])), <<>>, UpTo(25))
\* Lane <<x, y>> goes to <<y, 2 x + 3 y>>.
RhoPi(a, turns) == FoldLeft(LAMBDA r, i : LET x == (i - 1) % 5  y == (i - 1) \div 5 IN [r EXCEPT ![At(y, ((2 * x) + (3 * y)) % 5)] = RotL(a[i], turns[i])], a, UpTo(25))
Chi(a) == FoldLeft(LAMBDA r, i : LET x == (i - 1) % 5
                                     y == (i - 1) \div 5
                                     p == a[At((x + 1) % 5, y)]
                                     q == a[At((x + 2) % 5, y)]
                                 IN Append(r, <<a[i][1] ^^ (Flip(p[1]) & q[1]), a[i][2] ^^ (Flip(p[2]) & q[2])>>), <<>>, UpTo(25))
Permute(a, turns, cs) == FoldLeft(LAMBDA r, c : LET n == Chi(RhoPi(Theta(r), turns)) IN [n EXCEPT ![1] = XorL(n[1], c)], a, cs)
\* A digest of n bits takes 200 - n / 4 bytes at a time.
RateOf(n) == 200 - (n \div 4)
Sponge(s, first, n) ==
   LET rate == RateOf(n)
       z == rate - 1 - (Len(s) % rate)
       p == s \o (IF z = 0 THEN <<first + 128>> ELSE <<first>> \o Zeros(z - 1) \o <<128>>)
       turns == Offsets
       cs == RoundConstants
       one(a, b) == LET q == Block(p, rate, b)
                    IN Permute(FoldLeft(LAMBDA r, i : [r EXCEPT ![i] = XorL(r[i], <<Little(q, (8 * i) - 7), Little(q, (8 * i) - 3)>>)], a, UpTo(rate \div 8)), turns, cs)
       end == FoldLeft(one, [i \in 1 .. 25 |-> <<0, 0>>], UpTo(Len(p) \div rate))
   IN SubSeq(Flat(LAMBDA l : LittleBytes(l[1]) \o LittleBytes(l[2]), SubSeq(end, 1, 8)), 1, n \div 8)
----------------------------------------------------------------------------
Kinds == {"crc32", "md5", "sha1", "sha256", "sha3", "keccak"}
Others == [sha3224 |-> <<6, 224>>, sha3384 |-> <<6, 384>>, sha3512 |-> <<6, 512>>, keccak224 |-> <<1, 224>>, keccak384 |-> <<1, 384>>, keccak512 |-> <<1, 512>>]
Digest(kind, s) ==
   CASE kind = "crc32" -> Crc(s)
     [] kind = "md5" -> Md5(s)
     [] kind = "sha1" -> Sha1(s)
     [] kind = "sha256" -> Sha256(s)
     [] kind = "sha3" -> Sponge(s, 6, 256)
     [] kind = "keccak" -> Sponge(s, 1, 256)
     [] OTHER -> Sponge(s, Others[kind][1], Others[kind][2])
HexCode(n) == IF n < 10 THEN 48 + n ELSE 87 + n
Hex(s) == Flat(LAMBDA b : <<HexCode(b \div 16), HexCode(b % 16)>>, s)
=============================================================================
