----------------------------- MODULE BasisTrace ----------------------------
(* C01.  Judges the cell and facet tables delivered for one element type,    *)
(* quadrature rule and order.  Points are recovered from the delivered shape *)
(* values (x = sum N_a X_a), so quadrature points need not be rational.      *)
EXTENDS TraceBase, FixElem

DefaultOrder == [HEX8 |-> 2, HEX27 |-> 10, HEX20 |-> 2, TET4 |-> 0, TET10 |-> 2,
                 QUAD4 |-> 2, QUAD8 |-> 2, TRI3 |-> 0, TRI6 |-> 2]
Order(sc) == IF sc.order < 0 THEN DefaultOrder[sc.et] ELSE sc.order
RuleOK(rule, shape, order) ==      \* which (rule, shape, order) exist; shape "line","tri","quad","tet","hex"
  CASE rule = "gll" -> shape \in {"line", "quad", "hex"}
    [] rule = "xiao_gimbutas" -> shape \in {"tri", "tet"} /\ order >= 1
    [] OTHER -> TRUE
CellShape(et) == CASE F!Base(et) = "TRI3" -> "tri" [] F!Base(et) = "QUAD4" -> "quad" [] F!Base(et) = "TET4" -> "tet" [] OTHER -> "hex"
FaceShape(et) == CASE F!Dim(et) = 2 -> "line" [] F!Base(et) = "TET4" -> "tri" [] OTHER -> "quad"

\* node coordinates in fixed point
Xf(et, a) == [d \in 1..F!Dim(et) |-> F!NodeXi(et)[a][d] * 500000]
PointOf(et, vals) ==
   [d \in 1..F!Dim(et) |-> SumOver(1..Len(vals), LAMBDA a : FMul(vals[a], Xf(et, a)[d]))]

RECURSIVE FPow(_, _)
FPow(x, k) == IF k = 0 THEN S6 ELSE FMul(x, FPow(x, k - 1))
RECURSIVE FactTo(_)
FactTo(n) == IF n <= 1 THEN 1 ELSE n * FactTo(n - 1)
RECURSIVE DivChain(_, _)          \* 10^6 * i! j! k! / (i+j+k+d)! without overflow
DivChain(v, s) == IF s = <<>> THEN v ELSE DivChain(RMul(v, Head(s)), Tail(s))
SimplexMoment(al, d) ==           \* prod_i al_i! / (sum al + d)!
   LET n == SumSeq(al) + d
       num(i) == [k \in 1..al[i] |-> k]
       nums == IF d = 2 THEN num(1) \o num(2) ELSE num(1) \o num(2) \o num(3)
       terms == [k \in 1..n |-> IF k <= Len(nums) THEN <<nums[k], k>> ELSE <<1, k>>]
   IN DivChain(R(1), [k \in 1..n |-> RNorm(terms[k][1], terms[k][2])])
CellMoment(et, al) ==
   IF F!IsSimplex(et) THEN SimplexMoment(al, F!Dim(et))
   ELSE DivChain(R(1), [i \in 1..Len(al) |-> <<1, al[i] + 1>>])

Alphas(d, n) == IF d = 2 THEN {<<i, j>> : i \in 0..n, j \in 0..n} \cap {s \in [1..2 -> 0..n] : SumSeq(s) <= n}
                ELSE {s \in [1..3 -> 0..n] : SumSeq(s) <= n}
Exps(d, order) == LET n == Min2(order, 4) IN Alphas(d, n) \cup {[k \in 1..d |-> IF k = j THEN order ELSE 0] : j \in 1..d}
Mono(x, al) == IF Len(al) = 2 THEN FMul(FPow(x[1], al[1]), FPow(x[2], al[2]))
               ELSE FMul(FMul(FPow(x[1], al[1]), FPow(x[2], al[2])), FPow(x[3], al[3]))

InCell(et, x) ==
   /\ \A d \in 1..F!Dim(et) : x[d] >= -20 /\ x[d] <= S6 + 20
   /\ F!IsSimplex(et) => F!Bary(F!Dim(et), 1, x) >= -20
\* a subset of points is enough for the pointwise basis comparison when there are very many
Sampled(n) == IF n <= 30 THEN 1..n ELSE {q \in 1..n : q % (n \div 25) = 1 \/ q = n}

BasisClauses(et, x, vals, grads) ==
   (IF \E a \in 1..F!NN(et) : ~Near(vals[a], F!ShapeVal(et, a, x), 120) THEN {"basis_value"} ELSE {})
   \cup (IF \E a \in 1..F!NN(et), k \in 1..F!Dim(et) : ~Near(grads[a][k], F!ShapeGrad(et, a, x, k), 300) THEN {"basis_gradient"} ELSE {})

CellFails(sc, e) ==
  LET et == sc.et  d == F!Dim(et)  nq == Len(e.w) IN
  IF ~RuleOK(sc.rule, CellShape(et), Order(sc)) THEN {"accepts_impossible_rule"}
  ELSE IF Len(e.vals) # nq \/ Len(e.grads) # nq \/ nq = 0 \/ \E q \in 1..nq : Len(e.vals[q]) # F!NN(et) \/ Len(e.grads[q]) # F!NN(et)
  THEN {"table_shape"}
  ELSE LET xs == TLCEval([q \in 1..nq |-> PointOf(et, e.vals[q])]) IN
   (IF \E q \in 1..nq : ~InCell(et, xs[q]) THEN {"point_outside_cell"} ELSE {})
   \cup UNION {BasisClauses(et, xs[q], e.vals[q], e.grads[q]) : q \in Sampled(nq)}
   \cup (IF \E q \in 1..nq : ~Near(SumSeq(e.vals[q]), S6, 60) THEN {"partition_of_unity"} ELSE {})
   \cup (IF \E al \in Exps(d, Order(sc)) :
             ~NearR(SumOver(1..nq, LAMBDA q : FMul(e.w[q], Mono(xs[q], al))), CellMoment(et, al), 4 * nq + 12)
         THEN {"weights_inexact"} ELSE {})

\* --- facets
FacetArea6(et, Fc) ==             \* reference area, fixed point
  IF ~F!IsSimplex(et) THEN S6
  ELSE IF F!Dim(et) = 2 THEN (IF 1 \in Fc THEN S6 ELSE 1414214)
  ELSE (IF 1 \in Fc THEN 500000 ELSE 866025)
FacetNormal6(et, Fc) ==
  LET d == F!Dim(et) Vs == F!VertsOf(et) IN
  IF F!IsSimplex(et)
  THEN IF 1 \in Fc
       THEN [k \in 1..d |-> IF k + 1 \in Fc THEN 0 ELSE -S6]
       ELSE [k \in 1..d |-> IF d = 2 THEN 707107 ELSE 577350]
  ELSE [k \in 1..d |-> IF \A v, w \in Fc : Vs[v][k] = Vs[w][k]
                       THEN (IF Vs[CHOOSE v \in Fc : TRUE][k] = 0 THEN -S6 ELSE S6) ELSE 0]
OnFacet6(et, Fc, x) ==
  LET d == F!Dim(et) Vs == F!VertsOf(et) IN
  IF F!IsSimplex(et)
  THEN \A v \in 1..F!NV(et) : v \in Fc \/ Abs(F!Bary(d, v, x)) <= 30
  ELSE \A k \in 1..d : (\A v, w \in Fc : Vs[v][k] = Vs[w][k]) => Near(x[k], Vs[CHOOSE v \in Fc : TRUE][k] * 500000, 30)
\* mean over the facet of the monomial, exactly, by a degree-3 rule on its vertices
FacetMean(et, Fc, al) ==
  LET d == F!Dim(et) Vs == F!VertsOf(et) s == SetToSeqSorted(Fc)
      Xh(i) == [k \in 1..d |-> RNorm(Vs[s[i]][k], 2)]
      \* for hexahedral facets choose an ordering s1,s2 (edge), s3,s4 (opposite edge): tensor Simpson
      MonoR(x) == DivChain(R(1), [k \in 1..d |-> CASE al[k] = 0 -> R(1) [] al[k] = 1 -> x[k]
                       [] al[k] = 2 -> RMul(x[k], x[k]) [] OTHER -> RMul(x[k], RMul(x[k], x[k]))])
      Aff(cs) == [k \in 1..d |-> RSumSeq([i \in 1..Len(cs) |-> RMul(cs[i], Xh(i)[k])])]
  IN IF d = 2 THEN \* Simpson on the segment
       RAdd(RMul(<<1,6>>, MonoR(Aff(<<R(1), R(0)>>))), RAdd(RMul(<<2,3>>, MonoR(Aff(<<<<1,2>>, <<1,2>>>>))), RMul(<<1,6>>, MonoR(Aff(<<R(0), R(1)>>)))))
     ELSE IF F!IsSimplex(et) THEN
       RAdd(RMul(<<-9,16>>, MonoR(Aff(<<<<1,3>>, <<1,3>>, <<1,3>>>>))),
         RMul(<<25,48>>, RAdd(MonoR(Aff(<<<<3,5>>, <<1,5>>, <<1,5>>>>)), RAdd(MonoR(Aff(<<<<1,5>>, <<3,5>>, <<1,5>>>>)), MonoR(Aff(<<<<1,5>>, <<1,5>>, <<3,5>>>>))))))
     ELSE \* axis-aligned unit square at a fixed coordinate: product of one-dimensional means
       DivChain(R(1), [k \in 1..d |-> IF \A v, w \in Fc : Vs[v][k] = Vs[w][k]
                          THEN (IF Vs[CHOOSE v \in Fc : TRUE][k] = 0 /\ al[k] > 0 THEN R(0) ELSE R(1))
                          ELSE <<1, al[k] + 1>>])

FaceFails(sc, e) ==
  LET et == sc.et d == F!Dim(et) nf == Len(e.fv) IN
  IF ~RuleOK(sc.rule, FaceShape(et), Order(sc)) THEN {"accepts_impossible_rule"}
  ELSE IF nf # F!NF(et) \/ Len(e.fvals) # nf \/ Len(e.fgrads) # nf \/ Len(e.fw) # nf \/ Len(e.fn) # nf THEN {"facet_count"}
  ELSE IF \E f \in 1..nf : Len(e.fv[f]) # F!FacetVerts(et) \/ SeqToSet(e.fv[f]) \notin F!Facets(et)
                        \/ Cardinality(SeqToSet(e.fv[f])) # Len(e.fv[f]) THEN {"facet_vertices"}
  ELSE IF Cardinality({SeqToSet(e.fv[f]) : f \in 1..nf}) # nf THEN {"facet_repeated"}
  ELSE UNION {
    LET Fc == SeqToSet(e.fv[f]) nq == Len(e.fw[f]) IN
    IF nq = 0 \/ Len(e.fvals[f]) # nq THEN {"facet_table_shape"} ELSE
    LET xs == TLCEval([q \in 1..nq |-> PointOf(et, e.fvals[f][q])]) IN
      (IF \E q \in 1..nq : ~InCell(et, xs[q]) \/ ~OnFacet6(et, Fc, xs[q]) THEN {"facet_points_elsewhere"} ELSE {})
      \cup UNION {BasisClauses(et, xs[q], e.fvals[f][q], e.fgrads[f][q]) : q \in Sampled(nq)}
      \cup (IF \E k \in 1..d : ~Near(e.fn[f][k], FacetNormal6(et, Fc)[k], 5) THEN {"facet_normal"} ELSE {})
      \cup (IF ~Near(SumSeq(e.fw[f]), FacetArea6(et, Fc), 2 * nq + 5) THEN {"facet_area"} ELSE {})
      \cup (IF \E al \in Alphas(d, Min2(Order(sc), 3)) :
                ~Near(SumOver(1..nq, LAMBDA q : FMul(e.fw[f][q], Mono(xs[q], al))),
                      FMul(FacetArea6(et, Fc), FixOf(FacetMean(et, Fc, al))), 5 * nq + 15)
            THEN {"facet_weights_inexact"} ELSE {})
    : f \in 1..nf}

Fails(sc, e) ==
  CASE e.op = "cell" -> CellFails(sc, e)
    [] e.op = "face" -> FaceFails(sc, e)
    [] e.op = "cell_rejected" -> IF RuleOK(sc.rule, CellShape(sc.et), Order(sc)) THEN {"rejects_valid_rule"} ELSE {}
    [] e.op = "face_rejected" -> IF RuleOK(sc.rule, FaceShape(sc.et), Order(sc)) THEN {"rejects_valid_rule"} ELSE {}
    [] OTHER -> {"unexpected_event"}
MyInit(sc) == 0
MyApply(st0, sc, e) == [st |-> st0 + 1, fails |-> Fails(sc, e)]
=============================================================================
