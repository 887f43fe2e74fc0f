------------------------------- MODULE GeoFix ------------------------------
(* Isoparametric map, Jacobian, physical gradients and surface measure over  *)
(* fixed-point numbers (six decimals), for any reference point.              *)
EXTENDS FixElem
RECURSIVE FDivNZ(_, _, _, _)
FDivNZ(r, b, k, acc) == IF k = 0 THEN acc ELSE FDivNZ((r * 10) % b, b, k - 1, acc * 10 + (r * 10) \div b)
\* a / b for |b| < 2*10^8, result below 2000
FDiv(a, b) == LET x == Abs(a) y == Abs(b) v == FDivNZ(x % y, y, 6, x \div y)
              IN IF (a < 0) # (b < 0) THEN -v ELSE v
RECURSIVE SqIter(_, _, _)
SqIter(x, s, k) == IF k = 0 THEN s ELSE LET t == (s + FDiv(x, s)) \div 2 IN IF Abs(t - s) <= 1 THEN t ELSE SqIter(x, t, k - 1)
FSqrt(x) == IF x <= 0 THEN 0 ELSE SqIter(x, IF x > 100 * S6 THEN 15 * S6 ELSE IF x > S6 THEN 3 * S6 ELSE 500000, 40)
Dot(a, b) == SumSeq([k \in 1..Len(a) |-> FMul(a[k], b[k])])
Cross(a, b) == << FMul(a[2], b[3]) - FMul(a[3], b[2]), FMul(a[3], b[1]) - FMul(a[1], b[3]), FMul(a[1], b[2]) - FMul(a[2], b[1]) >>
FDet(m) == IF Len(m) = 2 THEN FMul(m[1][1], m[2][2]) - FMul(m[1][2], m[2][1]) ELSE Dot(m[1], Cross(m[2], m[3]))
FAdj(m) == IF Len(m) = 2 THEN << <<m[2][2], -m[1][2]>>, <<-m[2][1], m[1][1]>> >>
           ELSE LET c1 == Cross(m[2], m[3]) c2 == Cross(m[3], m[1]) c3 == Cross(m[1], m[2])
                IN [i \in 1..3 |-> <<c1[i], c2[i], c3[i]>>]
FInv(m) == LET d == FDet(m) a == FAdj(m) IN TLCEval([i \in 1..Len(m) |-> [j \in 1..Len(m) |-> FDiv(a[i][j], d)]])

Xf6(et, a) == [d \in 1..F!Dim(et) |-> F!NodeXi(et)[a][d] * 500000]
\* the reference point whose shape values were delivered
RefPoint(et, vals) == TLCEval([d \in 1..F!Dim(et) |-> SumOver(1..Len(vals), LAMBDA a : FMul(vals[a], Xf6(et, a)[d]))])
ShapeAt(et, xi) == TLCEval([a \in 1..F!NN(et) |-> F!ShapeVal(et, a, xi)])
RefGradAt(et, xi) == TLCEval([a \in 1..F!NN(et) |-> [k \in 1..F!Dim(et) |-> F!ShapeGrad(et, a, xi, k)]])
\* X: physical node coordinates (fixed) of one cell;  J[i][j] = dx_i / dxi_j
JacAt(X, G) == TLCEval([i \in 1..Len(G[1]) |-> [j \in 1..Len(G[1]) |-> SumSeq([a \in 1..Len(G) |-> FMul(X[a][i], G[a][j])])]])
PhysGrad(G, Ji) == TLCEval([a \in 1..Len(G) |-> [i \in 1..Len(Ji) |-> SumSeq([j \in 1..Len(Ji) |-> FMul(G[a][j], Ji[j][i])])]])
Interp(N, U) == [k \in 1..Len(U[1]) |-> SumSeq([a \in 1..Len(N) |-> FMul(N[a], U[a][k])])]
InterpGrad(PG, U) == [k \in 1..Len(U[1]) |-> [i \in 1..Len(PG[1]) |-> SumSeq([a \in 1..Len(PG) |-> FMul(U[a][k], PG[a][i])])]]
\* the area element of the facet with (1-based) vertex sequence fv, relative to its reference measure
RefEdge(et, fv, k) == LET v == F!VertsOf(et) IN [d \in 1..F!Dim(et) |-> (v[fv[k]][d] - v[fv[1]][d]) * 500000]
Push(J, e) == [i \in 1..Len(J) |-> Dot(J[i], e)]
Norm(v) == FSqrt(Dot(v, v))
Surf(et, fv, J) ==
  IF F!Dim(et) = 2 THEN LET e == RefEdge(et, fv, 2) IN FDiv(Norm(Push(J, e)), Norm(e))
  ELSE LET k2 == 2  \* the third vertex must not be collinear with the first two: any of them works on a facet
           e1 == RefEdge(et, fv, 2) e2 == RefEdge(et, fv, 3)
       IN FDiv(Norm(Cross(Push(J, e1), Push(J, e2))), Norm(Cross(e1, e2)))
=============================================================================
