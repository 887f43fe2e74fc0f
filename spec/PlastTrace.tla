----------------------------- MODULE PlastTrace ----------------------------
(* C16.  The plastic history of the real model, event by event: every        *)
(* evaluation of the return map is judged against the state the              *)
(* specification holds for the quadrature points under observation.          *)
EXTENDS TraceBase, Plast, SequencesExt
T10 == WTen(10)
T12 == WTen(12)
T6 == WTen(6)
T5 == WTen(5)
When(c, n) == IF c THEN {n} ELSE {}
DefOf(o, unit) == LET G == TLCEval([i \in I3 |-> [j \in I3 |-> WAdd(WId[i][j], WRat(o.A[i][j], unit))]]) IN MMul(MQuat(o.q), G)
\* one evaluation: from history a with deformation F to what was returned (n) and the Cauchy stress computed from a
PointFails(a, F, n, sig) ==
  IF ~(MOk(n.F) /\ MOk(n.be) /\ ~WIsNan(n.al) /\ MOk(sig)) THEN {"nonfinite"} ELSE
  LET t == Trial(a, F) J == MDet(F) tau == MScale(J, sig) s == MDev(tau)
      inside == WLe(t.phi, WNeg(T6)) outside == WLe(T6, t.phi)
      x == TLCEval(Step(a, F))
  IN When(~MNear(n.F, F, T12), "old_deformation_kept")
     \cup When(~WLe(a.al, WAdd(n.al, T12)), "plastic_strain_decreased")
     \cup When(inside /\ ~(WNear(n.al, a.al, T12) /\ MNear(n.be, t.be, T10)), "flow_inside_surface")
     \cup When(outside /\ WLe(n.al, a.al), "no_flow_outside_surface")
     \cup When(~WLe(MNorm(s), WAdd(Radius(n.al), T5)), "stress_outside_surface")
     \cup When(~Radial(n, t, T5), "not_coaxial")
     \cup When(~SameVolume(n, t, T10), "volumetric_part")
     \cup When(~(MNear(n.be, x.be, T10) /\ WNear(n.al, x.al, T10)), "return_map")
     \cup When(~MNear(tau, Kirchhoff(F, n.be), T5), "stress_of_another_state")
     \cup When(~WNear(WMul(WRat(1, 3), MTr(tau)), Pressure(F), T5), "pressure")
\* virtual power of the nodal forces against that of the stresses, for an affine virtual displacement
Power(e, V) == FoldSeq(LAMBDA g, acc : LET P == MScale(MDet(g.F), MMul(g.sig, MT(MInv(g.F)))) IN WAdd(acc, WMul(g.w, MDot(P, V))), WZero, e.gps)
PowerFails(o, e) == IF e.gps = <<>> \/ o.op = "branch" THEN {} ELSE
  LET V == TLCEval([i \in I3 |-> [j \in I3 |-> WInt(o.V[i][j])]]) IN When(~WNear(Power(e, V), e.power, T5), "forces_of_another_stress")
St(x) == [F |-> x.F, be |-> x.be, al |-> x.al]
Moved(s, sc, o, e) ==
  LET n == Len(e.at)
      holds == o.op = "again"
  IN UNION {TLCEval(PointFails(IF o.op = "branch" THEN Virgin ELSE s.at[i], e.at[i].F0, St(e.at[i]), e.at[i].sig)) : i \in 1..n}
     \cup When(o.op \in {"commit", "peek", "branch"} /\ o.pert = <<>> /\ \E i \in 1..n : ~MNear(e.at[i].F0, DefOf(o, sc.unit), T10), "deformation")
     \cup When(\E i \in 1..n : ~MNear(e.at[i].sig2, e.at[i].sig, T5), "stress_changed_by_commit")
     \cup When(holds /\ \E i \in 1..n : ~SameState(St(e.at[i]), s.at[i], T10) \/ (s.sig # <<>> /\ ~MNear(s.sig[i], e.at[i].sig, T5)), "changed_by_reevaluation")
     \cup When(~e.shapes, "shape") \cup When(~e.kept, "history_overwritten") \cup TLCEval(PowerFails(o, e))
MyInit(sc) == [at |-> [i \in 1..Len(sc.look) |-> Virgin], sig |-> <<>>, j |-> 1]
MyApply(s, sc, e) ==
  LET o == sc.ops[s.j] nx == [s EXCEPT !.j = @ + 1]
      R(s2, f) == [st |-> s2, fails |-> TLCEval(f)]
  IN CASE e.op = "state" -> R(s, When(\E i \in 1..Len(e.at) : ~SameState(St(e.at[i]), Virgin, T12), "initial_history"))
     [] e.op = "flat" -> R(nx, When(~e.rejected, "two_dimensional_accepted"))
     [] e.op = "fresh" -> R(nx, When(\E i \in 1..Len(e.at) : ~SameState(St(e.at[i]), Virgin, T12), "history_shared")
                                \cup When(\E i \in 1..Len(e.own) : ~SameState(St(e.own[i]), s.at[i], T12), "history_lost"))
     [] e.op = "unsolved" -> R(nx, {})
     [] e.op = "moved" /\ o.op \in {"commit", "again", "solve", "peek", "branch"} ->
          R(IF o.op \in {"peek", "branch"} THEN nx ELSE [nx EXCEPT !.at = [i \in 1..Len(e.at) |-> St(e.at[i])], !.sig = [i \in 1..Len(e.at) |-> e.at[i].sig]],
            Moved(s, sc, o, e) \cup When(o.op = "solve" /\ ~e.settled, "not_equilibrium"))
     [] OTHER -> R(nx, {"unexpected_event"})
=============================================================================
