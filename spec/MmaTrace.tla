------------------------------- MODULE MmaTrace ----------------------------
(* C13.  The optimiser's history: every update is judged against the update  *)
(* rule and the optimality conditions at the state the specification holds.  *)
EXTENDS TraceBase, Mma, Num
H(n) == DRat(n, 100)
CaseOf(sc, e) == IF sc.kind = "direct"
   THEN [n |-> sc.n, m |-> sc.m, xmin |-> [j \in 1..sc.n |-> DInt(sc.xmin[j])], xmax |-> [j \in 1..sc.n |-> DInt(sc.xmax[j])], move |-> H(sc.moves[e.step]),
         a0 |-> DInt(sc.a0), a |-> [r \in 1..sc.m |-> DInt(sc.a[r])], c |-> [r \in 1..sc.m |-> DInt(sc.c)], d |-> [r \in 1..sc.m |-> DInt(sc.d[r])]]
   ELSE [n |-> sc.n, m |-> sc.m, xmin |-> [j \in 1..sc.n |-> DZero], xmax |-> [j \in 1..sc.n |-> DInt(1)], move |-> H(sc.move),
         a0 |-> DInt(1), a |-> [r \in 1..sc.m |-> DZero], c |-> [r \in 1..sc.m |-> DInt(10000)], d |-> [r \in 1..sc.m |-> DZero]]
\* the abstract history: updates so far since the last reset, the last point and the asymptotes in force
MyInit(sc) == [k |-> 0, x |-> <<>>, low |-> <<>>, upp |-> <<>>, it |-> 0, runs |-> 0, px |-> <<>>]
InOf(s, sc, e) == LET k == IF e.reset = 1 THEN 1 ELSE s.k + 1 IN
   [k |-> k, x |-> e.x, x1 |-> IF s.k = 0 THEN e.x ELSE s.x, z |-> e.z,
    low0 |-> IF s.low = <<>> THEN e.x ELSE s.low, upp0 |-> IF s.upp = <<>> THEN e.x ELSE s.upp, g0 |-> e.g0, f |-> e.f, G |-> e.G]
Cl(a, b) == DClose(a, b, DTen(6), DTen(6))
\* --- the filter of a driver scenario, from the scenario's mesh
Cen(sc, i) == LET c == sc.mesh.cells[sc.flex[i] + 1] d == Len(sc.mesh.pts[1]) IN
   [q \in 1..d |-> DDiv(DInt(SumSeq([a \in 1..Len(c) |-> sc.mesh.pts[c[a] + 1][q]])), DInt(Len(c) * sc.den))]
Rmin(sc) == DDiv(DMul(DInt(3), DSqrt(DInt(sc.msq))), DInt(2 * sc.den))
Weights(sc) == LET X == TLCEval([i \in 1..sc.n |-> Cen(sc, i)]) IN
   TLCEval([i \in 1..sc.n |-> [j \in 1..sc.n |-> IF i = j THEN Rmin(sc) ELSE FilterW(DSum([q \in 1..Len(X[1]) |-> DSq(DSub(X[i][q], X[j][q]))]), Rmin(sc))]])
Tot(W, i) == DSum(W[i])
Dens(W, x) == [i \in 1..Len(x) |-> DDiv(DDot(W[i], x), Tot(W, i))]
\* the sensitivity of cell i is the weighted sum of its neighbours' sensitivities, each divided by the neighbour's total weight
Sens(W, rho, g) == LET q == TLCEval([j \in 1..Len(g) |-> DDiv(DDiv(DMul(rho[j], g[j]), DMax(DTen(3), rho[j])), Tot(W, j))]) IN [i \in 1..Len(g) |-> DDot(W[i], q)]
VecCl(x, y) == Len(x) = Len(y) /\ \A i \in 1..Len(x) : Cl(x[i], y[i])
Tenths(v) == [j \in 1..Len(v) |-> DRat(v[j], 10)]
FilterFails(sc, e) == LET W == Weights(sc) IN
   (IF Len(e.H) # sc.n \/ \E i, j \in 1..sc.n : ~Cl(e.H[i][j], W[i][j]) THEN {"filter_weights"} ELSE {})
   \cup (IF ~VecCl(e.Hs, [i \in 1..sc.n |-> Tot(W, i)]) THEN {"filter_totals"} ELSE {})
   \cup (IF ~VecCl(e.dens, Dens(W, Tenths(sc.vecs.rho))) THEN {"density_filter"} ELSE {})
   \cup (IF ~VecCl(e.dJ, Sens(W, Tenths(sc.vecs.rho), Tenths(sc.vecs.dJ))) \/ Len(e.dv) # Len(sc.vecs.dv)
            \/ \E r \in 1..Len(e.dv) : ~VecCl(e.dv[r], Sens(W, Tenths(sc.vecs.rho), Tenths(sc.vecs.dv[r]))) THEN {"sensitivity_filter"} ELSE {})
IterFails(s, sc, e) ==
  LET W == Weights(sc)
      want == IF sc.dens = 1 THEN Dens(W, s.x) ELSE s.x
      fg == IF sc.sens = 1 THEN Sens(W, s.x, e.rawg) ELSE e.rawg
      fG == [r \in 1..sc.m |-> IF sc.sens = 1 THEN Sens(W, s.x, e.rawG[r]) ELSE e.rawG[r]]
  IN IF e.missing = 1 THEN {"too_few_iterations"}
     ELSE (IF e.it # s.it + 1 THEN {"iteration_number"} ELSE {})
     \cup (IF ~VecCl(e.obj, want) THEN {"objective_at_wrong_design"} ELSE {})
     \cup (IF ~VecCl(e.cons, want) THEN {"constraints_at_wrong_design"} ELSE {})
     \cup (IF ~VecCl(e.x, s.x) THEN {"witness"} ELSE {})
     \cup (IF ~VecCl(e.g0, fg) \/ \E r \in 1..sc.m : ~VecCl(e.G[r], fG[r]) THEN {"witness"} ELSE {})
EndFails(s, sc, e) ==
   (IF e.nobj # sc.iters \/ e.ncons # sc.iters THEN {"number_of_iterations"} ELSE {})
   \cup (IF ~VecCl(e.rho, s.x) THEN {"returned_design"} ELSE {})
   \cup (IF e.shape # 1 THEN {"returned_shape"} ELSE {}) \cup (IF e.changed = 1 THEN {"caller_data_modified"} ELSE {})
StepSt(s, i, e) == [s EXCEPT !.k = i.k, !.x = e.x, !.low = e.out.low, !.upp = e.out.upp]
MyApply(s, sc, e) ==
  CASE e.op = "step" -> LET i == TLCEval(InOf(s, sc, e)) IN [st |-> StepSt(s, i, e), fails |-> TLCEval(StepFails(CaseOf(sc, e), i, e.out))]
    [] e.op = "filter" -> [st |-> s, fails |-> TLCEval(FilterFails(sc, e))]
    [] e.op = "start" -> [st |-> [MyInit(sc) EXCEPT !.x = Tenths(sc.rho0), !.runs = s.runs + 1], fails |-> {}]
    [] e.op = "iter" ->
         LET f1 == TLCEval(IterFails(s, sc, e)) IN
         IF e.missing = 1 THEN [st |-> s, fails |-> f1]
         ELSE LET i == TLCEval(InOf(s, sc, e))
              IN [st |-> [k |-> i.k, x |-> e.out.x, low |-> e.out.low, upp |-> e.out.upp, it |-> s.it + 1, runs |-> s.runs, px |-> e.x],
                  fails |-> f1 \cup TLCEval(StepFails(CaseOf(sc, e), [i EXCEPT !.x1 = IF s.k = 0 THEN e.x ELSE s.px], e.out))]
    [] e.op = "end" -> [st |-> s, fails |-> TLCEval(EndFails(s, sc, e))]
    [] OTHER -> [st |-> s, fails |-> {"unexpected_event"}]
=============================================================================
