-------------------------------- MODULE Num --------------------------------
(* Arithmetic for TLC's 32-bit integers: exact rationals <<n, d>> with d>0,  *)
(* fixed-point numbers with six decimals (value * 10^6), a pseudo-random     *)
(* stream for scenario generation, and folds.                                *)
EXTENDS Integers, Sequences, FiniteSets, TLC
LOCAL INSTANCE FiniteSetsExt
LOCAL INSTANCE SequencesExt

Abs(x) == IF x < 0 THEN -x ELSE x
Max2(a, b) == IF a >= b THEN a ELSE b
Min2(a, b) == IF a <= b THEN a ELSE b
Sgn(x) == IF x < 0 THEN -1 ELSE IF x = 0 THEN 0 ELSE 1

RECURSIVE Gcd(_, _)
Gcd(a, b) == IF b = 0 THEN a ELSE Gcd(b, a % b)
QDiv(a, b) == IF a >= 0 THEN a \div b ELSE -((-a) \div b)     \* truncation, b > 0

\* --- rationals
R(n) == <<n, 1>>
RNorm(n, d) == IF n = 0 THEN <<0, 1>>
               ELSE IF d = 1 THEN <<n, 1>>
               ELSE LET g == Gcd(Abs(n), Abs(d)) s == IF d < 0 THEN -1 ELSE 1
                    IN <<s * QDiv(n, g), Abs(d) \div g>>
RAdd(a, b) == IF a[1] = 0 THEN b ELSE IF b[1] = 0 THEN a
              ELSE IF a[2] = b[2] THEN RNorm(a[1] + b[1], a[2])
              ELSE LET g == Gcd(a[2], b[2]) IN RNorm(a[1] * (b[2] \div g) + b[1] * (a[2] \div g), a[2] * (b[2] \div g))
RMul(a, b) == IF a[1] = 0 \/ b[1] = 0 THEN <<0, 1>>
              ELSE IF a[2] = 1 /\ b[2] = 1 THEN <<a[1] * b[1], 1>>
              ELSE LET g == Gcd(Abs(a[1]), b[2]) h == Gcd(Abs(b[1]), a[2])
                   IN <<QDiv(a[1], g) * QDiv(b[1], h), (a[2] \div h) * (b[2] \div g)>>
RNeg(a) == <<-a[1], a[2]>>
RSub(a, b) == RAdd(a, RNeg(b))
RInv(a) == IF a[1] > 0 THEN <<a[2], a[1]>> ELSE <<-a[2], -a[1]>>
RDiv(a, b) == RMul(a, RInv(b))
RLe(a, b) == RSub(a, b)[1] <= 0
RLt(a, b) == RSub(a, b)[1] < 0
RScale(k, a) == RMul(R(k), a)

\* --- fixed point, scale 10^6
S6 == 1000000
FixOfNZ(n, d) ==     \* n >= 0, d > 0, floor(n * 10^6 / d) by long division
   LET q == n \div d r0 == n % d
       d1 == (r0 * 10) \div d  r1 == (r0 * 10) % d
       d2 == (r1 * 10) \div d  r2 == (r1 * 10) % d
       d3 == (r2 * 10) \div d  r3 == (r2 * 10) % d
       d4 == (r3 * 10) \div d  r4 == (r3 * 10) % d
       d5 == (r4 * 10) \div d  r5 == (r4 * 10) % d
       d6 == (r5 * 10) \div d
   IN q * S6 + d1 * 100000 + d2 * 10000 + d3 * 1000 + d4 * 100 + d5 * 10 + d6
FixOf(r) == IF r[1] < 0 THEN -FixOfNZ(-r[1], r[2]) ELSE FixOfNZ(r[1], r[2])
\* |a|,|b| <= 4*10^7 or so; the error is a couple of units
FMul(a, b) ==
   LET x == Abs(a) y == Abs(b)
       x1 == x \div 1000 x0 == x % 1000 y1 == y \div 1000 y0 == y % 1000
       v == x1 * y1 + (x1 * y0 + x0 * y1) \div 1000
   IN IF (a < 0) # (b < 0) THEN -v ELSE v
Near(a, b, tol) == Abs(a - b) <= tol
NearR(obs, r, tol) == Abs(obs - FixOf(r)) <= tol

\* --- folds
SumSeq(s) == FoldSeq(LAMBDA x, acc : x + acc, 0, s)
RSumSeq(s) == FoldSeq(LAMBDA x, acc : RAdd(x, acc), <<0, 1>>, s)
SumOver(Set, f(_)) == FoldSet(LAMBDA x, acc : f(x) + acc, 0, Set)
RSumOver(Set, f(_)) == FoldSet(LAMBDA x, acc : RAdd(f(x), acc), <<0, 1>>, Set)
MaxOf(Set) == CHOOSE x \in Set : \A y \in Set : y <= x
MinOf(Set) == CHOOSE x \in Set : \A y \in Set : x <= y
SeqToSet(s) == {s[i] : i \in 1..Len(s)}
RECURSIVE SetToSeqSorted(_)
SetToSeqSorted(S) == IF S = {} THEN <<>> ELSE LET m == MinOf(S) IN <<m>> \o SetToSeqSorted(S \ {m})

\* --- pseudo-random stream (deterministic in its arguments)
Mix(x, c) == (x * x + c) % 46337
Rnd(seed, k) == LET a == Mix((seed + 77) % 46337, 101 + (seed \div 46337))
                    b == Mix((a + 31 * (k % 40000) + 7) % 46337, 7919 + (k % 1009))
                    c == Mix((b + 13 * (seed % 40000) + 17 * (k % 40000)) % 46337, 251 + (k \div 40000))
                IN Mix((c + b) % 46337, 3)
Pick(seed, k, n) == Rnd(seed, k) % n                 \* 0..n-1
PickR(seed, k, lo, hi) == lo + (Rnd(seed, k) % (hi - lo + 1))
PickS(seed, k, s) == s[1 + (Rnd(seed, k) % Len(s))]
\* a pseudo-random permutation of 1..n (Fisher-Yates)
RECURSIVE Shuf(_, _, _)
Shuf(s, seed, i) == IF i <= 1 THEN s
                    ELSE LET j == 1 + (Rnd(seed, 1000 + i) % i)
                         IN Shuf([s EXCEPT ![i] = s[j], ![j] = s[i]], seed, i - 1)
Perm(n, seed) == Shuf([i \in 1..n |-> i], seed, n)
=============================================================================
