-------------------------------- MODULE Dec --------------------------------
(* Signed decimal floating point: <<m, e>> stands for m * 10^e with eight    *)
(* significant digits (10^7 <= |m| < 10^8, or <<0, 0>>).  Relative error of  *)
(* an operation about 10^-7.  <<0, 9999>> is not a number.                   *)
EXTENDS Integers, Sequences, TLC
LOCAL INSTANCE SequencesExt
DZero == <<0, 0>>
DNan == <<0, 9999>>
DIsNan(a) == a[1] = 0 /\ a[2] # 0
RECURSIVE DNorm(_, _)
DNorm(m, e) == IF m = 0 THEN DZero
   ELSE IF m >= 100000000 THEN DNorm(m \div 10, e + 1) ELSE IF m <= -100000000 THEN DNorm(-((-m) \div 10), e + 1)
   ELSE IF m > -1000000 /\ m < 1000000 THEN DNorm(m * 100, e - 2)
   ELSE IF m > -10000000 /\ m < 10000000 THEN <<m * 10, e - 1>> ELSE <<m, e>>
DInt(n) == DNorm(n, 0)
DNeg(a) == <<-a[1], a[2]>>
DAbs(a) == IF a[1] < 0 THEN DNeg(a) ELSE a
P10 == <<10, 100, 1000, 10000, 100000, 1000000, 10000000, 100000000>>
Shift(m, k) == IF k = 0 THEN m ELSE IF k > 8 THEN 0 ELSE IF m >= 0 THEN m \div P10[k] ELSE -((-m) \div P10[k])
DAdd(a, b) == IF DIsNan(a) \/ DIsNan(b) THEN DNan ELSE IF a[1] = 0 THEN b ELSE IF b[1] = 0 THEN a
   ELSE IF a[2] >= b[2] THEN DNorm(a[1] + Shift(b[1], a[2] - b[2]), a[2]) ELSE DNorm(b[1] + Shift(a[1], b[2] - a[2]), b[2])
DSub(a, b) == DAdd(a, DNeg(b))
DMul(a, b) == IF DIsNan(a) \/ DIsNan(b) THEN DNan ELSE IF a[1] = 0 \/ b[1] = 0 THEN DZero
   ELSE LET s == IF (a[1] < 0) = (b[1] < 0) THEN 1 ELSE -1
            x == IF a[1] < 0 THEN -a[1] ELSE a[1]  y == IF b[1] < 0 THEN -b[1] ELSE b[1]
            x1 == x \div 10000  x0 == x % 10000  y1 == y \div 10000  y0 == y % 10000
            c == x1 * y0 + x0 * y1 + (x0 * y0) \div 10000      \* units of 10^4
            h == x1 * y1                                        \* units of 10^8
        IN IF h >= 10000000 THEN DNorm(s * (h + c \div 10000), a[2] + b[2] + 8)
           ELSE DNorm(s * (h * 10 + c \div 1000), a[2] + b[2] + 7)
RECURSIVE LongDiv(_, _, _, _)
LongDiv(q, r, d, k) == IF k = 0 THEN q ELSE LongDiv(q * 10 + (r * 10) \div d, (r * 10) % d, d, k - 1)
DDiv(a, b) == IF DIsNan(a) \/ DIsNan(b) \/ b[1] = 0 THEN DNan ELSE IF a[1] = 0 THEN DZero
   ELSE LET s == IF (a[1] < 0) = (b[1] < 0) THEN 1 ELSE -1
            x == IF a[1] < 0 THEN -a[1] ELSE a[1]  y == IF b[1] < 0 THEN -b[1] ELSE b[1]
            k == IF x >= y THEN 7 ELSE 8
        IN DNorm(s * LongDiv(x \div y, x % y, y, k), a[2] - b[2] - k)
DSgn(a) == IF a[1] < 0 THEN -1 ELSE IF a[1] = 0 THEN 0 ELSE 1
\* a <= b (false when either is not a number)
DLe(a, b) == IF DIsNan(a) \/ DIsNan(b) THEN FALSE
   ELSE IF DSgn(a) # DSgn(b) THEN DSgn(a) < DSgn(b)
   ELSE IF a[1] = 0 THEN TRUE
   ELSE IF a[1] > 0 THEN (IF a[2] # b[2] THEN a[2] < b[2] ELSE a[1] <= b[1])
   ELSE (IF a[2] # b[2] THEN a[2] > b[2] ELSE a[1] <= b[1])
DLt(a, b) == DLe(a, b) /\ a # b
DMax(a, b) == IF DLe(a, b) THEN b ELSE a
DMin(a, b) == IF DLe(a, b) THEN a ELSE b
DSq(a) == DMul(a, a)
DSum(s) == FoldSeq(LAMBDA x, acc : DAdd(x, acc), DZero, s)
DAbsSum(s) == FoldSeq(LAMBDA x, acc : DAdd(DAbs(x), acc), DZero, s)
DDot(x, y) == DSum([i \in 1..Len(x) |-> DMul(x[i], y[i])])
\* 10^-k
DTen(k) == <<10000000, -7 - k>>
DRat(n, d) == DDiv(DInt(n), DInt(d))
\* |a - b| <= abs + rel * max(|a|, |b|)
DClose(a, b, abs, rel) == DLe(DAbs(DSub(a, b)), DAdd(abs, DMul(rel, DMax(DAbs(a), DAbs(b)))))
\* the sum of the terms vanishes to the given absolute and relative tolerance
DVanish(s, abs, rel) == DLe(DAbs(DSum(s)), DAdd(abs, DMul(rel, DAbsSum(s))))
\* Newton's iteration for the square root
RECURSIVE DRoot(_, _, _)
DRoot(a, x, k) == IF k = 0 THEN x ELSE DRoot(a, DMul(DRat(1, 2), DAdd(x, DDiv(a, x))), k - 1)
DSqrt(a) == IF a[1] = 0 THEN DZero ELSE IF a[1] < 0 THEN DNan
   ELSE DRoot(a, <<30000000, (a[2] + 7) \div 2 - 7>>, 7)
=============================================================================
