------------------------------- MODULE RefElem -----------------------------
(* Nodal basis functions of the nine element types on [0,1]^d or the unit    *)
(* simplex, and their gradients, over an abstract arithmetic:                *)
(*   A(x,y) = x+y   M(x,y) = x*y   K(n) = the integer n as a number.         *)
EXTENDS Topo
CONSTANTS A(_,_), M(_,_), K(_)
Sub(x, y) == A(x, M(K(-1), y))
A3(x, y, z) == A(A(x, y), z)
M3(x, y, z) == M(M(x, y), z)
\* one-dimensional factors: c is the node coordinate in half units
L1(c, t) == IF c = 0 THEN Sub(K(1), t) ELSE t
D1(c) == IF c = 0 THEN K(-1) ELSE K(1)
L2(c, t) == CASE c = 0 -> M(Sub(K(1), t), Sub(K(1), M(K(2), t)))
              [] c = 1 -> M(K(4), M(t, Sub(K(1), t)))
              [] OTHER -> M(t, Sub(M(K(2), t), K(1)))
D2(c, t) == CASE c = 0 -> Sub(M(K(4), t), K(3))
              [] c = 1 -> Sub(K(4), M(K(8), t))
              [] OTHER -> Sub(M(K(4), t), K(1))
Bub(t) == M(K(4), M(t, Sub(K(1), t)))
DBub(t) == Sub(K(4), M(K(8), t))
\* barycentric coordinates of a simplex point
Bary(d, v, x) == IF v = 1 THEN (IF d = 2 THEN Sub(K(1), A(x[1], x[2])) ELSE Sub(K(1), A3(x[1], x[2], x[3]))) ELSE x[v - 1]
DBary(v, k) == IF v = 1 THEN K(-1) ELSE IF k = v - 1 THEN K(1) ELSE K(0)
IsMid(X) == \E d \in 1..Len(X) : X[d] = 1

ShapeVal(et, a, x) ==
  LET X == NodeXi(et)[a] d == Dim(et) IN
  IF IsSimplex(et) THEN
     IF a <= NV(et) THEN LET b == Bary(d, a, x) IN
          IF Quadratic(et) THEN M(b, Sub(M(K(2), b), K(1))) ELSE b
     ELSE LET e == EdgesOf(et)[a - NV(et)] IN M(K(4), M(Bary(d, e[1], x), Bary(d, e[2], x)))
  ELSE IF ~Quadratic(et) THEN
     IF d = 2 THEN M(L1(X[1], x[1]), L1(X[2], x[2])) ELSE M3(L1(X[1], x[1]), L1(X[2], x[2]), L1(X[3], x[3]))
  ELSE IF et = "HEX27" THEN M3(L2(X[1], x[1]), L2(X[2], x[2]), L2(X[3], x[3]))
  ELSE \* serendipity
     LET f(k) == IF X[k] = 1 THEN Bub(x[k]) ELSE L1(X[k], x[k])
         S == IF d = 2 THEN A(L1(X[1], x[1]), L1(X[2], x[2])) ELSE A3(L1(X[1], x[1]), L1(X[2], x[2]), L1(X[3], x[3]))
         c == Sub(M(K(2), S), K(IF d = 2 THEN 3 ELSE 5))
         p == IF d = 2 THEN M(f(1), f(2)) ELSE M3(f(1), f(2), f(3))
     IN IF IsMid(X) THEN p ELSE M(p, c)

ShapeGrad(et, a, x, k) ==
  LET X == NodeXi(et)[a] d == Dim(et) IN
  IF IsSimplex(et) THEN
     IF a <= NV(et) THEN
          IF Quadratic(et) THEN M(DBary(a, k), Sub(M(K(4), Bary(d, a, x)), K(1))) ELSE DBary(a, k)
     ELSE LET e == EdgesOf(et)[a - NV(et)] IN
          M(K(4), A(M(DBary(e[1], k), Bary(d, e[2], x)), M(Bary(d, e[1], x), DBary(e[2], k))))
  ELSE IF ~Quadratic(et) THEN
     LET g(j) == IF j = k THEN D1(X[j]) ELSE L1(X[j], x[j])
     IN IF d = 2 THEN M(g(1), g(2)) ELSE M3(g(1), g(2), g(3))
  ELSE IF et = "HEX27" THEN
     LET g(j) == IF j = k THEN D2(X[j], x[j]) ELSE L2(X[j], x[j]) IN M3(g(1), g(2), g(3))
  ELSE
     LET f(j) == IF X[j] = 1 THEN Bub(x[j]) ELSE L1(X[j], x[j])
         df(j) == IF X[j] = 1 THEN DBub(x[j]) ELSE D1(X[j])
         g(j) == IF j = k THEN df(j) ELSE f(j)
         p == IF d = 2 THEN M(f(1), f(2)) ELSE M3(f(1), f(2), f(3))
         dp == IF d = 2 THEN M(g(1), g(2)) ELSE M3(g(1), g(2), g(3))
         S == IF d = 2 THEN A(L1(X[1], x[1]), L1(X[2], x[2])) ELSE A3(L1(X[1], x[1]), L1(X[2], x[2]), L1(X[3], x[3]))
         c == Sub(M(K(2), S), K(IF d = 2 THEN 3 ELSE 5))
     IN IF IsMid(X) THEN dp ELSE A(M(dp, c), M(p, M(K(2), D1(X[k]))))
=============================================================================
