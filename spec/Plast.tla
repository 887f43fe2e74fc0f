------------------------------- MODULE Plast -------------------------------
(* Finite-strain J2 plasticity with linear isotropic hardening: the history  *)
(* of a quadrature point is the previous deformation F, the elastic left     *)
(* Cauchy-Green tensor be (isochoric) and the accumulated plastic strain al. *)
EXTENDS Wide
BulkK == WInt(164000)
ShearG == WInt(80000)
HardH == WInt(18)
Sig0 == WInt(400)
R23 == TLCEval(WSqrt(WRat(2, 3)))
Virgin == [F |-> WId, be |-> WId, al |-> WZero]
Radius(al) == WMul(R23, WAdd(Sig0, WMul(HardH, al)))
TrialBe(s, F) == LET f == MMul(F, MInv(s.F)) fb == MScale(WRCube(MDet(f)), f) IN MMul(MMul(fb, s.be), MT(fb))
Pressure(F) == LET J == MDet(F) IN WMul(WMul(WRat(1, 2), BulkK), WSub(WMul(J, J), WInt(1)))
MDiag(p) == [i \in I3 |-> [j \in I3 |-> IF i = j THEN p ELSE WZero]]
Kirchhoff(F, be) == MAdd(MDiag(Pressure(F)), MScale(ShearG, MDev(be)))
Trial(s, F) == LET bt == TrialBe(s, F) st == MScale(ShearG, MDev(bt)) IN TLCEval([be |-> bt, s |-> st, n |-> MNorm(st), phi |-> WSub(MNorm(st), Radius(s.al))])
ElasticTo(s, F, t) == [F |-> F, be |-> t.be, al |-> s.al]
PlasticTo(s, F, t) ==
  LET ie == WMul(WRat(1, 3), MTr(t.be)) gb == WMul(ie, ShearG)
      dg == WDiv(t.phi, WMul(WMul(WInt(2), gb), WAdd(WInt(1), WDiv(HardH, WMul(WInt(3), gb)))))
      sn == MScale(WSub(WInt(1), WDiv(WMul(WMul(WInt(2), gb), dg), t.n)), t.s)
  IN TLCEval([F |-> F, be |-> MAdd(MScale(WInv(ShearG), sn), MDiag(ie)), al |-> WAdd(s.al, WMul(R23, dg))])
Step(s, F) == LET t == Trial(s, F) IN IF t.phi[1] = 1 THEN PlasticTo(s, F, t) ELSE ElasticTo(s, F, t)
Rotated(s, Q) == [F |-> MMul(Q, s.F), be |-> MMul(MMul(Q, s.be), MT(Q)), al |-> s.al]
SameState(a, b, tol) == MNear(a.F, b.F, tol) /\ MNear(a.be, b.be, tol) /\ WNear(a.al, b.al, tol)
\* --- the clauses of the return map, for any pair of states
Admissible(s, tol) == WLe(MNorm(MScale(ShearG, MDev(s.be))), WAdd(Radius(s.al), tol))
Coaxial(s, n, t, tol) == LET a == MMul(MDev(n.be), MDev(t.be)) b == MMul(MDev(t.be), MDev(n.be)) IN MNear(a, b, tol)
\* the deviator is shrunk towards zero, never turned
Radial(n, t, tol) == LET x == MScale(ShearG, MDev(n.be)) y == t.s k == IF t.n[1] = 0 THEN WZero ELSE WDiv(MNorm(x), t.n) IN MNear(x, MScale(k, y), tol)
SameVolume(n, t, tol) == WNear(MTr(n.be), MTr(t.be), tol)
=============================================================================
