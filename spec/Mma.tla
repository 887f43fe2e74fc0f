--------------------------------- MODULE Mma --------------------------------
(* One step of the method of moving asymptotes: the rule that moves the      *)
(* asymptotes, the convex subproblem at the current point, and its           *)
(* optimality conditions.  All numbers are decimal floats (Dec).             *)
EXTENDS Dec, Integers, Sequences, FiniteSets
Half == DRat(1, 2)
\* sign history of component j: 1 grows the distance, -1 shrinks it, 0 keeps it
Factor(z) == IF z > 0 THEN DRat(12, 10) ELSE IF z < 0 THEN DRat(7, 10) ELSE DInt(1)
Clamp(x, lo, hi) == DMin(DMax(x, lo), hi)
\* epoch k, current x, previous x1, previous asymptote distances, range r, sign z of (x - x1)(x1 - x2)
LowRule(k, x, x1, low, r, z) ==
   IF k <= 2 THEN DSub(x, DMul(Half, r))
   ELSE Clamp(DSub(x, DMul(Factor(z), DSub(x1, low))), DSub(x, DMul(DInt(10), r)), DSub(x, DMul(DRat(1, 100), r)))
UpRule(k, x, x1, upp, r, z) ==
   IF k <= 2 THEN DAdd(x, DMul(Half, r))
   ELSE Clamp(DAdd(x, DMul(Factor(z), DSub(upp, x1))), DAdd(x, DMul(DRat(1, 100), r)), DAdd(x, DMul(DInt(10), r)))
\* the bounds of the subproblem
Alfa(x, low, xmin, r, move) == DMax(DMax(DAdd(low, DMul(DRat(1, 10), DSub(x, low))), DSub(x, DMul(move, r))), xmin)
Beta(x, upp, xmax, r, move) == DMin(DMin(DSub(upp, DMul(DRat(1, 10), DSub(upp, x))), DAdd(x, DMul(move, r))), xmax)
\* coefficients of 1/(upp - x) and 1/(x - low) for a gradient component g
Raa == <<10000000, -12>>      \* 10^-5
PCoef(g, x, upp, r) == DMul(DAdd(DAdd(DMax(g, DZero), DMul(DTen(3), DAbs(g))), DDiv(Raa, DMax(r, Raa))), DSq(DSub(upp, x)))
QCoef(g, x, low, r) == DMul(DAdd(DAdd(DMax(DNeg(g), DZero), DMul(DTen(3), DAbs(g))), DDiv(Raa, DMax(r, Raa))), DSq(DSub(x, low)))

\* c: [n, m, xmin, xmax, move, a0, a, c, d];  in: [k, x, x1, z, low0, upp0, g0, f, G];  o: [low, upp, x, y, zz, lam, xsi, eta, mu, zet, s]
Range(c, j) == DSub(c.xmax[j], c.xmin[j])
T6 == DTen(6)
AsymFails(c, i, o) ==
   LET R(j) == Range(c, j) IN
   (IF \E j \in 1..c.n : ~DClose(o.low[j], LowRule(i.k, i.x[j], i.x1[j], i.low0[j], R(j), i.z[j]), DMul(T6, R(j)), T6)
       \/ ~DClose(o.upp[j], UpRule(i.k, i.x[j], i.x1[j], i.upp0[j], R(j), i.z[j]), DMul(T6, R(j)), T6) THEN {"asymptote_rule"} ELSE {})
   \cup (IF \E j \in 1..c.n : ~DLt(o.low[j], i.x[j]) \/ ~DLt(i.x[j], o.upp[j]) THEN {"asymptotes_not_around_point"} ELSE {})
PointFails(c, i, o) ==
   LET sl(j) == DMul(DTen(7), DAdd(Range(c, j), DAbs(i.x[j]))) IN
   (IF \E j \in 1..c.n : ~DLe(DSub(c.xmin[j], sl(j)), o.x[j]) \/ ~DLe(o.x[j], DAdd(c.xmax[j], sl(j))) THEN {"outside_bounds"} ELSE {})
   \cup (IF \E j \in 1..c.n : ~DLe(DAbs(DSub(o.x[j], i.x[j])), DAdd(DMul(c.move, Range(c, j)), sl(j))) THEN {"move_limit"} ELSE {})
   \cup (IF \E j \in 1..c.n : ~DLt(o.low[j], o.x[j]) \/ ~DLt(o.x[j], o.upp[j]) THEN {"outside_asymptotes"} ELSE {})
\* complementarity of a multiplier w >= 0 and a gap g >= 0 known to an absolute error e
Compl(w, g, e) == DLe(DNeg(T6), w) /\ DLe(DNeg(DAdd(e, T6)), g) /\ DLe(DAbs(DMul(w, g)), DAdd(DTen(5), DMul(DAbs(w), e)))
KktFails(c, i, o) ==
  LET n == c.n m == c.m
      P0 == [j \in 1..n |-> PCoef(i.g0[j], i.x[j], o.upp[j], Range(c, j))]
      Q0 == [j \in 1..n |-> QCoef(i.g0[j], i.x[j], o.low[j], Range(c, j))]
      PP == TLCEval([r \in 1..m |-> [j \in 1..n |-> PCoef(i.G[r][j], i.x[j], o.upp[j], Range(c, j))]])
      QQ == TLCEval([r \in 1..m |-> [j \in 1..n |-> QCoef(i.G[r][j], i.x[j], o.low[j], Range(c, j))]])
      bb(r) == DSub(DAdd(DSum([j \in 1..n |-> DDiv(PP[r][j], DSub(o.upp[j], i.x[j]))]), DSum([j \in 1..n |-> DDiv(QQ[r][j], DSub(i.x[j], o.low[j]))])), i.f[r])
      Abs6(j) == DMul(DTen(7), DAdd(DAbs(o.x[j]), DAdd(DAbs(o.upp[j]), DAbs(o.low[j]))))
      al(j) == Alfa(i.x[j], o.low[j], c.xmin[j], Range(c, j), c.move)
      be(j) == Beta(i.x[j], o.upp[j], c.xmax[j], Range(c, j), c.move)
      u(j) == DSub(o.upp[j], o.x[j])  v(j) == DSub(o.x[j], o.low[j])
      \* relative error with which upp - x and x - low are known
      er(j) == DMul(DInt(3), DAdd(DDiv(Abs6(j), u(j)), DDiv(Abs6(j), v(j))))
      statTerms(j) == <<DDiv(P0[j], DSq(u(j))), DNeg(DDiv(Q0[j], DSq(v(j)))), DNeg(o.xsi[j]), o.eta[j]>>
         \o [r \in 1..m |-> DMul(o.lam[r], DDiv(PP[r][j], DSq(u(j))))] \o [r \in 1..m |-> DNeg(DMul(o.lam[r], DDiv(QQ[r][j], DSq(v(j)))))]
      conTerms(r) == [j \in 1..n |-> DDiv(PP[r][j], u(j))] \o [j \in 1..n |-> DDiv(QQ[r][j], v(j))]
         \o <<DNeg(DMul(c.a[r], o.zz)), DNeg(o.y[r]), o.s[r], DNeg(bb(r))>>
      maxer == DSum([j \in 1..n |-> er(j)])
  IN (IF \E j \in 1..n : ~DVanish(statTerms(j), DTen(5), DAdd(DTen(5), er(j))) THEN {"stationarity_x"} ELSE {})
     \cup (IF \E r \in 1..m : ~DVanish(<<c.c[r], DMul(c.d[r], o.y[r]), DNeg(o.mu[r]), DNeg(o.lam[r])>>, DTen(5), DTen(5)) THEN {"stationarity_y"} ELSE {})
     \cup (IF ~DVanish(<<c.a0, DNeg(o.zet)>> \o [r \in 1..m |-> DNeg(DMul(c.a[r], o.lam[r]))], DTen(5), DTen(5)) THEN {"stationarity_z"} ELSE {})
     \cup (IF \E r \in 1..m : ~DVanish(conTerms(r), DTen(5), DAdd(DTen(5), maxer)) THEN {"constraint_equation"} ELSE {})
     \cup (IF \E j \in 1..n : ~Compl(o.xsi[j], DSub(o.x[j], al(j)), Abs6(j)) \/ ~Compl(o.eta[j], DSub(be(j), o.x[j]), Abs6(j)) THEN {"complementarity_x"} ELSE {})
     \cup (IF \E r \in 1..m : ~Compl(o.mu[r], o.y[r], DZero) THEN {"complementarity_y"} ELSE {})
     \cup (IF ~Compl(o.zet, o.zz, DZero) THEN {"complementarity_z"} ELSE {})
     \cup (IF \E r \in 1..m : ~Compl(o.lam[r], o.s[r], DMul(DTen(7), DAdd(DAbs(o.s[r]), DInt(1)))) THEN {"complementarity_constraints"} ELSE {})
StepFails(c, i, o) == AsymFails(c, i, o) \cup PointFails(c, i, o) \cup KktFails(c, i, o)
\* --- the filter: cells with centroids X (integers over den), radius 1.5 h, all over den
FilterW(dist2, rmin) == IF DLe(DSq(rmin), dist2) THEN DZero ELSE DSub(rmin, DSqrt(dist2))
=============================================================================
