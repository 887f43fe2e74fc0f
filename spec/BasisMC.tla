------------------------------- MODULE BasisMC -----------------------------
(* The reference elements are sound: nodal, complete to first order, with    *)
(* gradients that are derivatives (checked at every node and at a walk of    *)
(* rational points), the facet tables partition the boundary, and the        *)
(* rational quadrature rules integrate to their degree.                      *)
EXTENDS RatElem
VARIABLES et, x
D(e) == E!Dim(e)
Grid == {<<0,1>>, <<1,5>>, <<1,2>>, <<2,3>>}
Init == et \in E!Types /\ x = [k \in 1..D(et) |-> <<0,1>>]
Next == \E k \in 1..D(et), v \in Grid : x' = [x EXCEPT ![k] = v] /\ UNCHANGED et
BasisInv ==
   /\ (x = [k \in 1..D(et) |-> <<0,1>>] => BasisOK(et))
   /\ RSumSeq([a \in 1..E!NN(et) |-> E!ShapeVal(et, a, x)]) = R(1)
   /\ \A k \in 1..D(et) : RSumSeq([a \in 1..E!NN(et) |-> RMul(XiR(et, a)[k], E!ShapeVal(et, a, x))]) = x[k]
   /\ \A k, j \in 1..D(et) : RSumSeq([a \in 1..E!NN(et) |-> RMul(XiR(et, a)[k], E!ShapeGrad(et, a, x, j))]) = R(IF k = j THEN 1 ELSE 0)
TopoInv == E!TopoOK
Vol(e) == CASE E!Base(e) = "TRI3" -> <<1,2>> [] E!Base(e) = "TET4" -> <<1,6>> [] OTHER -> <<1,1>>
Mom1(e) == CASE E!Base(e) = "TRI3" -> <<1,6>> [] E!Base(e) = "TET4" -> <<1,24>> [] OTHER -> <<1,2>>
Mom2(e) == CASE E!Base(e) = "TRI3" -> <<1,12>> [] E!Base(e) = "TET4" -> <<1,60>> [] OTHER -> <<1,3>>
Kinds(e) == CASE E!Base(e) = "TRI3" -> {"c", "m", "e"} [] E!Base(e) = "TET4" -> {"c", "e"} [] OTHER -> {"c", "v", "s"}
IntR(e, kind, f(_)) == LET r == CellRule(e, kind) IN RSumSeq([q \in 1..Len(r) |-> RMul(r[q].w, f(r[q].x))])
RuleInv == \A kind \in Kinds(et) :
   /\ IntR(et, kind, LAMBDA y : R(1)) = Vol(et)
   /\ \A k \in 1..D(et) : IntR(et, kind, LAMBDA y : y[k]) = Mom1(et)
   /\ kind \in {"m", "e", "s"} => \A k \in 1..D(et) : IntR(et, kind, LAMBDA y : RMul(y[k], y[k])) = Mom2(et)
=============================================================================
