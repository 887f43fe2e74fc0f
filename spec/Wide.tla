-------------------------------- MODULE Wide -------------------------------
(* Signed floating point with four limbs of four decimal digits:            *)
(* <<s, e, a, b, c, d>> stands for s * (a + b/B + c/B^2 + d/B^3) * B^e with  *)
(* B = 10^4, 1 <= a < B (or s = 0 for zero): 13 to 16 significant digits.    *)
(* s = 2 is not a number.                                                    *)
EXTENDS Dec
LOCAL B == 10000
WZero == <<0, 0, 0, 0, 0, 0>>
WNan == <<2, 0, 0, 0, 0, 0>>
WIsNan(x) == x[1] = 2
RECURSIVE WNorm(_, _, _, _, _, _)
WNorm(s, e, a, b, c, d) == IF a = 0 THEN (IF b = 0 /\ c = 0 /\ d = 0 THEN WZero ELSE WNorm(s, e - 1, b, c, d, 0)) ELSE <<s, e, a, b, c, d>>
WInt(n) == IF n = 0 THEN WZero ELSE LET m == IF n < 0 THEN -n ELSE n IN WNorm(IF n < 0 THEN -1 ELSE 1, 2, m \div 100000000, (m \div B) % B, m % B, 0)
WNeg(x) == <<IF x[1] = 2 THEN 2 ELSE -x[1], x[2], x[3], x[4], x[5], x[6]>>
WAbs(x) == IF x[1] = -1 THEN WNeg(x) ELSE x
LOCAL Lower(x, k) == CASE k = 0 -> <<x[3], x[4], x[5], x[6]>> [] k = 1 -> <<0, x[3], x[4], x[5]>> [] k = 2 -> <<0, 0, x[3], x[4]>> [] k = 3 -> <<0, 0, 0, x[3]>> [] OTHER -> <<0, 0, 0, 0>>
\* the order of the magnitudes of two non-zero numbers
LOCAL MagLe(x, y) == IF x[2] # y[2] THEN x[2] < y[2] ELSE IF x[3] # y[3] THEN x[3] < y[3] ELSE IF x[4] # y[4] THEN x[4] < y[4] ELSE IF x[5] # y[5] THEN x[5] < y[5] ELSE x[6] <= y[6]
LOCAL Plus(x, y) ==     \* |x| >= |y|, same sign
  LET z == Lower(y, x[2] - y[2])
      d == x[6] + z[4]  c == x[5] + z[3] + d \div B  b == x[4] + z[2] + c \div B  a == x[3] + z[1] + b \div B
  IN IF a >= B THEN <<x[1], x[2] + 1, 1, a - B, b % B, c % B>> ELSE <<x[1], x[2], a, b % B, c % B, d % B>>
LOCAL Minus(x, y) ==    \* |x| >= |y|, opposite signs
  LET z == Lower(y, x[2] - y[2])
      d == x[6] - z[4]  c == x[5] - z[3] - (IF d < 0 THEN 1 ELSE 0)  b == x[4] - z[2] - (IF c < 0 THEN 1 ELSE 0)  a == x[3] - z[1] - (IF b < 0 THEN 1 ELSE 0)
      up(q) == IF q < 0 THEN q + B ELSE q
  IN WNorm(x[1], x[2], a, up(b), up(c), up(d))
WAdd(x, y) == IF WIsNan(x) \/ WIsNan(y) THEN WNan ELSE IF x[1] = 0 THEN y ELSE IF y[1] = 0 THEN x
   ELSE IF MagLe(y, x) THEN (IF x[1] = y[1] THEN Plus(x, y) ELSE Minus(x, y)) ELSE (IF x[1] = y[1] THEN Plus(y, x) ELSE Minus(y, x))
WSub(x, y) == WAdd(x, WNeg(y))
WMul(x, y) == IF WIsNan(x) \/ WIsNan(y) THEN WNan ELSE IF x[1] = 0 \/ y[1] = 0 THEN WZero
   ELSE LET p4 == x[4] * y[6] + x[5] * y[5] + x[6] * y[4]
            p3 == x[3] * y[6] + x[4] * y[5] + x[5] * y[4] + x[6] * y[3] + p4 \div B
            p2 == x[3] * y[5] + x[4] * y[4] + x[5] * y[3] + p3 \div B
            p1 == x[3] * y[4] + x[4] * y[3] + p2 \div B
            p0 == x[3] * y[3] + p1 \div B
            s == IF x[1] = y[1] THEN 1 ELSE -1
        IN IF p0 >= B THEN <<s, x[2] + y[2] + 1, p0 \div B, p0 % B, p1 % B, p2 % B>> ELSE <<s, x[2] + y[2], p0, p1 % B, p2 % B, p3 % B>>
\* eight digits of a number, and back
W2D(x) == IF WIsNan(x) THEN DNan ELSE IF x[1] = 0 THEN DZero
   ELSE IF x[3] < 10 THEN DNorm(x[1] * ((x[3] * B + x[4]) * 1000 + x[5] \div 10), 4 * x[2] - 7)
   ELSE IF x[3] < 100 THEN DNorm(x[1] * ((x[3] * B + x[4]) * 100 + x[5] \div 100), 4 * x[2] - 6)
   ELSE IF x[3] < 1000 THEN DNorm(x[1] * ((x[3] * B + x[4]) * 10 + x[5] \div 1000), 4 * x[2] - 5)
   ELSE DNorm(x[1] * (x[3] * B + x[4]), 4 * x[2] - 4)
D2W(x) == IF DIsNan(x) THEN WNan ELSE IF x[1] = 0 THEN WZero
   ELSE LET m == IF x[1] < 0 THEN -x[1] ELSE x[1]
            f == x[2] % 4                        \* m * 10^f in limbs, exponent a multiple of four
            e == (x[2] - f) \div 4
            h == m \div B  l == m % B            \* m = h*B + l
            t == <<1, 10, 100, 1000>>[f + 1]
            l1 == l * t  h1 == h * t + l1 \div B
        IN WNorm(IF x[1] < 0 THEN -1 ELSE 1, e + 2, h1 \div B, h1 % B, l1 % B, 0)
RECURSIVE Recip(_, _, _)
Recip(y, r, k) == IF k = 0 THEN r ELSE Recip(y, WMul(r, WSub(WInt(2), WMul(y, r))), k - 1)
WInv(y) == IF WIsNan(y) \/ y[1] = 0 THEN WNan ELSE Recip(y, D2W(DDiv(DInt(1), W2D(y))), 2)
WDiv(x, y) == WMul(x, WInv(y))
WRat(n, d) == WDiv(WInt(n), WInt(d))
WSqrt(x) == IF x[1] = 0 THEN WZero ELSE IF x[1] # 1 THEN WNan ELSE LET r == D2W(DSqrt(W2D(x))) IN WMul(WRat(1, 2), WAdd(r, WDiv(x, r)))
\* x^(-1/3) for 0 < x < 3
RECURSIVE RCube(_, _, _)
RCube(x, r, k) == IF k = 0 THEN r ELSE RCube(x, WMul(WMul(r, WRat(1, 3)), WSub(WInt(4), WMul(x, WMul(r, WMul(r, r))))), k - 1)
WRCube(x) == RCube(x, WInt(1), 7)
WLe(x, y) == IF WIsNan(x) \/ WIsNan(y) THEN FALSE ELSE IF x[1] # y[1] THEN x[1] < y[1] ELSE IF x[1] = 0 THEN TRUE ELSE IF x[1] = 1 THEN MagLe(x, y) ELSE MagLe(y, x)
WMax(x, y) == IF WLe(x, y) THEN y ELSE x
\* 10^-k
WTen(k) == D2W(DTen(k))
WNear(x, y, tol) == WLe(WAbs(WSub(x, y)), tol)
WSum3(a, b, c) == WAdd(WAdd(a, b), c)
\* --- three-by-three matrices
I3 == 1..3
WId == [i \in I3 |-> [j \in I3 |-> IF i = j THEN WInt(1) ELSE WZero]]
MMul(X, Y) == TLCEval([i \in I3 |-> [j \in I3 |-> WSum3(WMul(X[i][1], Y[1][j]), WMul(X[i][2], Y[2][j]), WMul(X[i][3], Y[3][j]))]])
MT(X) == [i \in I3 |-> [j \in I3 |-> X[j][i]]]
MAdd(X, Y) == TLCEval([i \in I3 |-> [j \in I3 |-> WAdd(X[i][j], Y[i][j])]])
MSub(X, Y) == TLCEval([i \in I3 |-> [j \in I3 |-> WSub(X[i][j], Y[i][j])]])
MScale(c, X) == TLCEval([i \in I3 |-> [j \in I3 |-> WMul(c, X[i][j])]])
MTr(X) == WSum3(X[1][1], X[2][2], X[3][3])
MDev(X) == LET t == WMul(WRat(1, 3), MTr(X)) IN TLCEval([i \in I3 |-> [j \in I3 |-> IF i = j THEN WSub(X[i][j], t) ELSE X[i][j]]])
MDot(X, Y) == LET r(i) == WSum3(WMul(X[i][1], Y[i][1]), WMul(X[i][2], Y[i][2]), WMul(X[i][3], Y[i][3])) IN WSum3(r(1), r(2), r(3))
MNorm(X) == WSqrt(MDot(X, X))
LOCAL Cof(X, i, j) == LET p == (i % 3) + 1  q == (p % 3) + 1  r == (j % 3) + 1  t == (r % 3) + 1 IN WSub(WMul(X[p][r], X[q][t]), WMul(X[p][t], X[q][r]))
MDet(X) == WSum3(WMul(X[1][1], Cof(X, 1, 1)), WMul(X[1][2], Cof(X, 1, 2)), WMul(X[1][3], Cof(X, 1, 3)))
MInv(X) == LET c == WInv(MDet(X)) IN TLCEval([i \in I3 |-> [j \in I3 |-> WMul(c, Cof(X, j, i))]])
MNear(X, Y, tol) == \A i \in I3 : \A j \in I3 : WNear(X[i][j], Y[i][j], tol)
MOk(X) == \A i \in I3 : \A j \in I3 : ~WIsNan(X[i][j])
\* the rotation of a non-zero integer quaternion
MQuat(q) == LET a == q[1] b == q[2] c == q[3] d == q[4] n == a*a + b*b + c*c + d*d
                R == << <<a*a+b*b-c*c-d*d, 2*(b*c-a*d), 2*(b*d+a*c)>>, <<2*(b*c+a*d), a*a-b*b+c*c-d*d, 2*(c*d-a*b)>>, <<2*(b*d-a*c), 2*(c*d+a*b), a*a-b*b-c*c+d*d>> >>
            IN TLCEval([i \in I3 |-> [j \in I3 |-> WRat(R[i][j], n)]])
=============================================================================
