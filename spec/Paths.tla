-------------------------------- MODULE Paths ------------------------------
(* Solver options and what they name; dynamic relaxation; arc-length         *)
(* continuation.  A linear option is [kind, args, ksp, pc, pre]: the backend *)
(* and which of its settings are given ("absent": no linear options at all). *)
EXTENDS Phys, Flt, Dec
WhenC(c, name) == IF c THEN {name} ELSE {}
JaxPre == [kind |-> "jax", args |-> <<>>, ksp |-> "", pc |-> "", pre |-> TRUE]
Spsolve == [JaxPre EXCEPT !.kind = "spsolve"]
\* the documented defaults
Resolve(l, dflt) == CASE l.kind = "absent" -> dflt
   [] l.kind = "default" -> dflt
   [] l.kind = "petsc" -> [l EXCEPT !.ksp = IF "ksp" \in SeqToSet(l.args) THEN l.ksp ELSE "bcgsl", !.pc = IF "pc" \in SeqToSet(l.args) THEN l.pc ELSE "ilu"]
   [] l.kind = "jax" -> [l EXCEPT !.pre = IF "pre" \in SeqToSet(l.args) THEN l.pre ELSE TRUE]
   [] OTHER -> l
CallFails(want, c) ==
   IF want.kind # c.kind THEN {"wrong_backend"} ELSE
   WhenC(want.kind = "petsc" /\ want.ksp # c.ksp, "wrong_ksp") \cup WhenC(want.kind = "petsc" /\ want.pc # c.pc, "wrong_preconditioner")
   \cup WhenC(want.kind = "jax" /\ want.pre # c.pre, "wrong_preconditioner")
\* --- dynamic relaxation: run = [n0 (largest free residual of the guess, boundary values installed), calls]
Free(D) == {i \in 1..Len(D) : D[i] = <<>>}
Fixed(D, u) == [i \in 1..Len(D) |-> IF D[i] = <<>> THEN u[i] ELSE D[i][1]]
F2D(t) == DNorm(t[1], t[2])
RelaxTol(o) == IF "tol" \in SeqToSet(o.omit) THEN <<100000, -11>> ELSE o.tol
RelaxFails(pr, s0, o, run, e) ==
  LET D == DofsOf(pr, s0) n == Len(D) tol == RelaxTol(o)
      r == Plain(pr, s0, e.u)
      slack(i) == TolR(r[i]) + 1 + (CASE tol[2] >= -4 -> tol[1] * 100 [] tol[2] = -5 -> tol[1] * 10 [] OTHER -> tol[1] \div (CASE tol[2] = -6 -> 1 [] tol[2] = -7 -> 10 [] tol[2] = -8 -> 100 [] tol[2] = -9 -> 1000 [] OTHER -> 100000))
  IN IF ~e.shape \/ Len(e.u) # n THEN {"shape"} ELSE IF \E i \in 1..n : Abs(e.u[i]) >= 400000000 THEN {"returned_nonfinite"} ELSE
     WhenC(\E i \in 1..n : D[i] # <<>> /\ ~Near(e.u[i], D[i][1], 2), "constrained_value")
     \cup WhenC(FCmp(e.n, tol) = "no", "not_relaxed")
     \cup WhenC(\E i \in Free(D) : Abs(r[i]) > slack(i), "not_equilibrium")
     \cup WhenC(o.guess # <<>> /\ FCmp(run.n0, tol) = "yes" /\ (LET s == Fixed(D, U6(o.guess)) IN \E i \in 1..n : ~Near(e.u[i], s[i], 2)), "equilibrium_left")
     \cup WhenC(~e.same, "input_changed") \cup WhenC(~e.opts, "options_changed")
     \cup WhenC(Len(run.calls) > 1, "wrong_method")
     \cup UNION {CallFails(Resolve(o.lin, Spsolve), run.calls[i]) : i \in 1..Len(run.calls)}
\* --- arc-length continuation: state = [k (steps taken), u, lam, du, dl (increments of the last step)], numbers in Dec
One == DInt(1)
Big(lam) == IF DLe(DAdd(One, DTen(7)), lam) THEN "yes" ELSE IF DLe(DSub(One, DTen(7)), lam) THEN "either" ELSE "no"      \* lam >= 1
ArcDefaults(ctl) == IF ctl = "displacement" THEN [psi |-> One, dl |-> DRat(1, 10), late |-> DRat(1, 10), switch |-> 1000000, maxs |-> 600]
                    ELSE [psi |-> DRat(1, 2), dl |-> DRat(1, 10), late |-> One, switch |-> 200, maxs |-> 500]
ArcOpt(o) == LET d == ArcDefaults(o.ctl) om == SeqToSet(o.omit) force == o.ctl = "force" IN
   [psi |-> IF "psi" \in om THEN d.psi ELSE F2D(o.psi), dl |-> IF "dl" \in om THEN d.dl ELSE F2D(o.dl), maxs |-> IF "maxs" \in om THEN d.maxs ELSE o.maxs,
    late |-> IF "late" \in om THEN d.late ELSE F2D(o.late), switch |-> IF ~force THEN 1000000 ELSE IF "switch" \in om THEN d.switch ELSE o.switch]
\* at least a positive number, in fixed point
FUp(f) == IF f[1] <= 0 THEN 1 ELSE LET k == -(f[2] + 6) IN IF k < -2 THEN 400000000 ELSE IF k <= 0 THEN f[1] * (CASE k = 0 -> 1 [] k = -1 -> 10 [] OTHER -> 100) ELSE IF k > 6 THEN 1 ELSE f[1] \div P10[k] + 1
DFx(v) == DNorm(v, -6)
\* the reference load: boundary values (displacement) or the given vector without its constrained entries (force)
RefLoad(o, D, q) == TLCEval([i \in 1..Len(D) |-> IF o.ctl = "displacement" THEN (IF D[i] = <<>> THEN DZero ELSE DFx(D[i][1])) ELSE IF D[i] = <<>> THEN q[i] ELSE DZero])
Fx6(x) == LET e == x[2] + 6 IN IF x[1] = 0 THEN 0 ELSE IF e >= 2 THEN 1000000000 ELSE IF e >= 0 THEN x[1] * (IF e = 0 THEN 1 ELSE 10) ELSE Shift(x[1], -e)
FxSeq(s) == [i \in 1..Len(s) |-> Fx6(s[i])]
DSubSeq(a, b) == TLCEval([i \in 1..Len(a) |-> DSub(a[i], b[i])])
\* one step from state a to (u, lam)
StepFails(pr, s0, o, D, w, a, e) ==
  LET c == ArcOpt(o) n == Len(D) u6 == TLCEval(FxSeq(e.u)) l6 == Fx6(e.lam)
      r == Plain(pr, s0, u6)
      free(i) == IF o.ctl = "displacement" THEN r[i] ELSE r[i] + Fx6(DMul(DSub(One, e.lam), w[i]))
      du == DSubSeq(e.u, a.u) dl == DSub(e.lam, a.lam)
      ww == DMul(DSq(c.psi), DDot(w, w))
      len == DAdd(DDot(du, du), DMul(ww, DSq(dl)))
      want == DSq(IF a.k < c.switch THEN c.dl ELSE c.late)
      dot == DAdd(DDot(du, a.du), DMul(ww, DMul(dl, a.dl)))
      broken == Len(e.u) # n \/ DIsNan(e.lam) \/ \E i \in 1..Len(e.u) : DIsNan(e.u[i])
      off == \E i \in Free(D) : Abs(free(i)) > 400 + Abs(r[i]) \div 2000
      \* the first-order prediction from an equilibrium, uncorrected
      predicted == LET p6 == TLCEval(FxSeq(a.u)) r1 == Plain(pr, s0, p6) t1 == Tangent(PhysOf(pr, s0), s0.cg, s0.sg, p6, TLCEval([i \in 1..n |-> u6[i] - p6[i]]))
                       load(i, x) == IF o.ctl = "displacement" THEN 0 ELSE Fx6(DMul(x, w[i])) IN
                   \A i \in Free(D) : Near(r1[i] + load(i, DSub(One, a.lam)), 0, 400 + Abs(r1[i]) \div 2000) /\ Near(t1[i], load(i, dl), 400 + Abs(t1[i]) \div 2000)
      fixd(i) == IF o.ctl = "displacement" THEN Fx6(DMul(e.lam, w[i])) ELSE D[i][1]
  IN IF broken THEN {"step_broken"} ELSE
     WhenC(e.step # a.k, "step_number")
     \cup WhenC(a.k > 0 /\ Big(a.lam) = "yes", "continued_past_full_load")
     \cup WhenC(a.k >= c.maxs, "too_many_steps")
     \cup (IF ~off THEN {} ELSE IF predicted THEN {"predictor_uncorrected"} ELSE {"step_not_equilibrium"})
     \cup WhenC(\E i \in 1..n : D[i] # <<>> /\ ~Near(u6[i], fixd(i), 4 + Abs(u6[i]) \div 100000), "step_boundary_value")
     \cup WhenC(~DClose(len, want, DTen(12), DTen(3)), "arc_length")
     \cup WhenC(a.k > 0 /\ ~DLe(DZero, DAdd(dot, DMul(DRat(1, 2), len))), "turned_back")
     \cup WhenC(a.k = 0 /\ o.rising /\ ~o.may /\ ~DLt(DZero, e.lam), "started_backwards")
After1(a, e) == [k |-> a.k + 1, u |-> e.u, lam |-> e.lam, du |-> DSubSeq(e.u, a.u), dl |-> DSub(e.lam, a.lam)]
ArcStart(n) == [k |-> 0, u |-> [i \in 1..n |-> DZero], lam |-> DZero, du |-> [i \in 1..n |-> DZero], dl |-> DZero]
SameState(a, b) == a.step = b.step /\ a.lam = b.lam /\ a.u = b.u
RECURSIVE HistFails(_, _, _, _, _, _, _, _)
HistFails(pr, s0, o, D, w, a, h, i) == IF i > Len(h) THEN [a |-> a, fails |-> {}] ELSE
   LET f == StepFails(pr, s0, o, D, w, a, h[i]) IN IF "step_broken" \in f THEN [a |-> a, fails |-> f] ELSE
   LET r == HistFails(pr, s0, o, D, w, TLCEval(After1(a, h[i])), h, i + 1) IN [a |-> r.a, fails |-> f \cup r.fails]
\* the end: run = [a, recs, w, calls (after the last step), n0 (first of them)]
ArcDone(pr, s0, o, run, e) ==
  LET D == DofsOf(pr, s0) c == ArcOpt(o)
      hr == IF o.cb \/ ~o.ret THEN [a |-> run.a, fails |-> {}] ELSE HistFails(pr, s0, o, D, run.w, ArcStart(Len(D)), e.hist, 1)
      a == hr.a known == o.cb \/ o.ret
      reached == Big(a.lam)
      slack == FUp(o.ntol) + FUp(FTimes(e.ns, o.nrel[1], o.nrel[2]))
      full == LET r == FullRes(pr, s0, D, e.u) IN \A i \in 1..Len(r) : Abs(r[i]) <= 400 + slack
      last == Len(e.u) = Len(D) /\ \A i \in 1..Len(D) : Near(e.u[i], Fx6(a.u[i]), 2 + Abs(e.u[i]) \div 10000000)
  IN IF "step_broken" \in hr.fails THEN hr.fails ELSE
     hr.fails
     \cup WhenC(e.tuple # o.ret, "return_form") \cup WhenC(~e.shape, "shape") \cup WhenC(~e.opts, "options_changed")
     \cup WhenC(known /\ reached = "no" /\ a.k # c.maxs, "stopped_early")
     \cup WhenC(known /\ reached = "yes" /\ ~full, "not_full_load") \cup WhenC(known /\ reached = "no" /\ ~last, "not_last_state")
     \cup WhenC(known /\ reached = "no" /\ Len(run.calls) > 0 /\ o.cb, "polished_early")
     \cup WhenC(known /\ reached # "no" /\ FCmp(e.n, o.ntol) = "no" /\ FCmp(e.n, FTimes(e.ns, o.nrel[1], o.nrel[2])) = "no" /\ full, "polish_tolerance")
     \* the polish starts where the path ended
     \cup WhenC(o.cb /\ reached = "yes" /\ Len(run.calls) > 0 /\ LET n == run.calls[1].n IN FCmp(n, FTimes(e.ns, 102, -2)) = "no" \/ FCmp(FTimes(e.ns, 98, -2), n) = "no", "polish_not_from_path")
     \cup (IF ~o.cb \/ reached # "yes" THEN {} ELSE UNION {CallFails(Resolve(IF o.lin.kind \in {"absent", "default"} THEN o.nlin ELSE o.lin, JaxPre), run.calls[i]) : i \in 1..Len(run.calls)})
     \cup (IF ~e.tuple \/ ~o.ret THEN {} ELSE
           WhenC(e.lam # a.lam, "metadata_lam") \cup WhenC(e.target # One, "metadata_target") \cup WhenC(e.control # o.ctl, "metadata_control")
           \cup WhenC((reached = "yes" /\ ~e.polished) \/ (reached = "no" /\ e.polished), "metadata_polished")
           \cup WhenC(o.cb /\ (Len(e.hist) # Len(run.recs) \/ \E i \in 1..Len(e.hist) : i <= Len(run.recs) /\ ~SameState(e.hist[i], run.recs[i])), "history"))
=============================================================================
