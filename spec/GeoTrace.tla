------------------------------ MODULE GeoTrace -----------------------------
(* C02.  The delivered geometric quantities of sampled cells and facets,     *)
(* compared pointwise with the isoparametric map of the specification, and   *)
(* the totals of affine meshes compared with the exact volume.               *)
EXTENDS TraceBase, GeoFix
Den(den, x) == (x * S6) \div den
Tol(v) == 150 + Abs(v) \div 5000
Nr(a, b) == Near(a, b, Tol(b))
Pts(sc, e) == IF e.op = "moved" THEN sc.moved ELSE sc.mesh.pts
CellX(sc, e, c) == LET pts == Pts(sc, e) den == IF e.op = "moved" THEN sc.mden ELSE sc.den IN LET cell == sc.mesh.cells[c + 1] IN TLCEval([a \in 1..Len(cell) |-> [k \in 1..Len(pts[1]) |-> Den(den, pts[cell[a] + 1][k])]])
CellU(sc, c) == LET cell == sc.mesh.cells[c + 1] IN TLCEval([a \in 1..Len(cell) |-> [k \in 1..sc.vec |-> sc.sol[cell[a] + 1][k] * S6]])
BadVec(obs, ex) == Len(obs) # Len(ex) \/ \E k \in 1..Len(ex) : ~Nr(obs[k], ex[k])
BadMat(obs, ex) == Len(obs) # Len(ex) \/ \E k \in 1..Len(ex) : BadVec(obs[k], ex[k])
CellClauses(sc, e, i) ==
  LET et == sc.et r == e.cells[i] X == CellX(sc, e, sc.scells[i]) U == CellU(sc, sc.scells[i]) IN
  UNION { LET q == r[k] xi == RefPoint(et, q.N) N == ShapeAt(et, xi) G == RefGradAt(et, xi)
              J == JacAt(X, G) det == FDet(J) PG == PhysGrad(G, FInv(J)) IN
     (IF BadMat(q.grads, PG) THEN {"physical_gradient"} ELSE {})
     \cup (IF ~Nr(q.jxw, FMul(det, q.w)) THEN {"cell_measure"} ELSE {})
     \cup (IF BadVec(q.x, Interp(N, X)) THEN {"quadrature_point"} ELSE {})
     \cup (IF BadVec(q.u, Interp(N, U)) THEN {"value_interpolation"} ELSE {})
     \cup (IF BadMat(q.gu, InterpGrad(PG, U)) THEN {"gradient_interpolation"} ELSE {})
     \cup (IF \E a \in 1..Len(N), j \in 1..Len(PG[1]) : ~Nr(q.vg[a][j], FMul(PG[a][j], q.jxw)) THEN {"weighted_test_gradient"} ELSE {})
    : k \in 1..Len(r)}
FaceClauses(sc, e, i) ==
  LET et == sc.et f == e.faces[i] sel == sc.sfaces[i] X == CellX(sc, e, sel[1]) U == CellU(sc, sel[1]) IN
  IF f.cell # sel[1] \/ f.face # sel[2] THEN {"facet_not_delivered"} ELSE
  UNION { LET q == f.qs[k] xi == RefPoint(et, q.N) N == ShapeAt(et, xi) G == RefGradAt(et, xi) J == JacAt(X, G) IN
     (IF ~Nr(q.ds, FMul(Surf(et, f.fv, J), q.w)) THEN {"facet_measure"} ELSE {})
     \cup (IF BadMat(q.grads, PhysGrad(G, FInv(J))) THEN {"facet_gradient"} ELSE {})
     \cup (IF BadVec(q.x, Interp(N, X)) THEN {"facet_quadrature_point"} ELSE {})
     \cup (IF BadVec(q.u, Interp(N, U)) THEN {"facet_value_interpolation"} ELSE {})
    : k \in 1..Len(f.qs)}
\* total volume of an affine block: |det| * (2*4/den)^d * number of boxes
BoxVol(sc) == LET d == Len(sc.n) side == (8 * S6) \div sc.den
                  boxes == IF d = 2 THEN sc.n[1] * sc.n[2] ELSE sc.n[1] * sc.n[2] * sc.n[3]
              IN Abs(sc.affdet) * boxes * (IF d = 2 THEN FMul(side, side) ELSE FMul(FMul(side, side), side))
Totals(sc, e) == IF e.op = "geom" /\ sc.kind \in {"box", "shear"} /\ ~Near(e.vol, BoxVol(sc), 200) THEN {"total_volume"} ELSE {}
Fails(sc, e) ==
  IF e.op \notin {"geom", "moved", "again"} THEN {"unexpected_event"}
  ELSE IF Len(e.cells) # Len(sc.scells) \/ Len(e.faces) # Len(sc.sfaces) THEN {"unexpected_event"}
  ELSE UNION {CellClauses(sc, e, i) : i \in 1..Len(e.cells)} \cup UNION {FaceClauses(sc, e, i) : i \in 1..Len(e.faces)} \cup Totals(sc, e)
MyInit(sc) == 0
MyApply(s, sc, e) == [st |-> s + 1, fails |-> TLCEval(Fails(sc, e))]
=============================================================================
