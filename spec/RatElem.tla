------------------------------- MODULE RatElem -----------------------------
(* The reference elements over exact rationals, with rational quadrature     *)
(* rules, and self-checks of the basis (nodality, partition of unity,        *)
(* gradient consistency) that the models evaluate.                           *)
EXTENDS Num
E == INSTANCE RefElem WITH A <- RAdd, M <- RMul, K <- R
Half(X) == [d \in 1..Len(X) |-> RNorm(X[d], 2)]
XiR(et, a) == Half(E!NodeXi(et)[a])

\* --- quadrature rules: sequences of [x, w]; kinds:
\*  "c" one point at the centroid, "v" vertices (GLL order 1), "s" tensor Simpson (GLL order 3),
\*  "m" edge-interior points of the triangle of degree 2, "e" exact to degree 3
P1(x, w) == [x |-> x, w |-> w]
Line(kind) == CASE kind = "c" -> << <<<<1,2>>, <<1,1>>>> >>
                [] kind = "v" -> << <<<<0,1>>, <<1,2>>>>, <<<<1,1>>, <<1,2>>>> >>
                [] OTHER      -> << <<<<0,1>>, <<1,6>>>>, <<<<1,2>>, <<2,3>>>>, <<<<1,1>>, <<1,6>>>> >>
TriRule(kind) == CASE kind = "c" -> << P1(<<<<1,3>>, <<1,3>>>>, <<1,2>>) >>
    [] kind = "m" -> << P1(<<<<1,6>>, <<1,6>>>>, <<1,6>>), P1(<<<<1,6>>, <<2,3>>>>, <<1,6>>), P1(<<<<2,3>>, <<1,6>>>>, <<1,6>>) >>
    [] OTHER -> << P1(<<<<1,3>>, <<1,3>>>>, <<-27,96>>), P1(<<<<1,5>>, <<1,5>>>>, <<25,96>>),
                   P1(<<<<3,5>>, <<1,5>>>>, <<25,96>>), P1(<<<<1,5>>, <<3,5>>>>, <<25,96>>) >>
TetRule(kind) == CASE kind = "c" -> << P1(<<<<1,4>>, <<1,4>>, <<1,4>>>>, <<1,6>>) >>
    [] OTHER -> << P1(<<<<1,4>>, <<1,4>>, <<1,4>>>>, <<-2,15>>), P1(<<<<1,6>>, <<1,6>>, <<1,6>>>>, <<3,40>>),
                   P1(<<<<1,2>>, <<1,6>>, <<1,6>>>>, <<3,40>>), P1(<<<<1,6>>, <<1,2>>, <<1,6>>>>, <<3,40>>),
                   P1(<<<<1,6>>, <<1,6>>, <<1,2>>>>, <<3,40>>) >>
Tens(d, kind) == LET L == Line(kind) n == Len(L) IN
  IF d = 1 THEN [i \in 1..n |-> P1(<<L[i][1]>>, L[i][2])]
  ELSE IF d = 2 THEN [i \in 1..(n*n) |-> LET p == (i-1) \div n + 1 q == ((i-1) % n) + 1
                        IN P1(<<L[p][1], L[q][1]>>, RMul(L[p][2], L[q][2]))]
  ELSE [i \in 1..(n*n*n) |-> LET p == (i-1) \div (n*n) + 1 q == (((i-1) \div n) % n) + 1 r == ((i-1) % n) + 1
                        IN P1(<<L[p][1], L[q][1], L[r][1]>>, RMul(RMul(L[p][2], L[q][2]), L[r][2]))]
CellRule(et, kind) == CASE E!Base(et) = "TRI3" -> TriRule(kind) [] E!Base(et) = "TET4" -> TetRule(kind)
                        [] OTHER -> Tens(E!Dim(et), kind)
FacetRule(et, kind) == IF E!Dim(et) = 2 THEN Tens(1, IF kind = "e" THEN "s" ELSE IF kind = "m" THEN "s" ELSE kind)
                       ELSE IF E!IsSimplex(et) THEN TriRule(kind) ELSE Tens(2, kind)

\* --- small dense linear algebra over rationals
Det2(m) == RSub(RMul(m[1][1], m[2][2]), RMul(m[1][2], m[2][1]))
Cof3(m, i, j) == LET r == SelectSeq(<<1,2,3>>, LAMBDA k : k # i) c == SelectSeq(<<1,2,3>>, LAMBDA k : k # j)
                     v == RSub(RMul(m[r[1]][c[1]], m[r[2]][c[2]]), RMul(m[r[1]][c[2]], m[r[2]][c[1]]))
                 IN IF (i + j) % 2 = 0 THEN v ELSE RNeg(v)
Det(m) == IF Len(m) = 2 THEN Det2(m)
          ELSE RAdd(RMul(m[1][1], Cof3(m,1,1)), RAdd(RMul(m[1][2], Cof3(m,1,2)), RMul(m[1][3], Cof3(m,1,3))))
Adj(m) == IF Len(m) = 2 THEN << <<m[2][2], RNeg(m[1][2])>>, <<RNeg(m[2][1]), m[1][1]>> >>
          ELSE [i \in 1..3 |-> [j \in 1..3 |-> Cof3(m, j, i)]]
Inv(m) == LET d == Det(m) a == Adj(m) IN TLCEval([i \in 1..Len(m) |-> [j \in 1..Len(m) |-> RDiv(a[i][j], d)]])

\* --- self checks
BasisOK(et) ==
  /\ \A a, b \in 1..E!NN(et) : E!ShapeVal(et, a, XiR(et, b)) = R(IF a = b THEN 1 ELSE 0)
  /\ LET x == IF E!Dim(et) = 2 THEN <<<<1,5>>, <<2,7>>>> ELSE <<<<1,5>>, <<2,7>>, <<1,3>>>>
         h == <<1, 4>>
         \* all bases are at most cubic along a coordinate line: Richardson on the central difference is exact
         sh(k, s) == [j \in 1..E!Dim(et) |-> IF j = k THEN RAdd(x[j], s) ELSE x[j]]
         cd(a, k, s) == RDiv(RSub(E!ShapeVal(et, a, sh(k, s)), E!ShapeVal(et, a, sh(k, RNeg(s)))), RMul(R(2), s))
     IN /\ RSumSeq([a \in 1..E!NN(et) |-> E!ShapeVal(et, a, x)]) = R(1)
        /\ \A k \in 1..E!Dim(et) :
             /\ RSumSeq([a \in 1..E!NN(et) |-> E!ShapeGrad(et, a, x, k)]) = R(0)
             /\ RSumSeq([a \in 1..E!NN(et) |-> RMul(XiR(et, a)[k], E!ShapeVal(et, a, x))]) = x[k]
             /\ \A a \in 1..E!NN(et) :
                  E!ShapeGrad(et, a, x, k) =
                  RDiv(RSub(RMul(R(4), cd(a, k, <<1,8>>)), cd(a, k, h)), R(3))
=============================================================================
