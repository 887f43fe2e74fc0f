------------------------------ MODULE Session ------------------------------
(* Sessions with problem objects: the trace specification of C05, C06, C07,  *)
(* C09, C10 and C17.  A scenario builds problems and performs operations on  *)
(* them; every recorded residual, tangent, right-hand side, Newton iterate,  *)
(* solution and gradient must be that of what is installed at that moment.   *)
EXTENDS TraceBase, Paths
Probs(sc) == sc.pbs
MyInit(sc) == [t |-> 1, pbs |-> [k \in 1..Len(sc.pbs) |-> Fresh(sc.pbs[k])], run |-> <<>>, fw |-> [k \in 1..6 |-> <<>>]]
R0(st0, f) == [st |-> st0, fails |-> f]
When(c, name) == IF c THEN {name} ELSE {}
\* a full vector P x: some reduced index per column has a unit row of its own
Tied(P, u) == P = <<>> \/ LET n == NRed(P)
      x == TLCEval([j \in 1..n |-> LET S == {i \in 1..Len(P) : P[i] = << <<j, 4>> >>} IN IF S = {} THEN <<>> ELSE <<u[CHOOSE i \in S : \A k \in S : i <= k]>>])
      known == \A j \in 1..n : x[j] # <<>>
   IN ~known \/ LET full == Lift(P, [j \in 1..n |-> x[j][1]]) IN \A i \in 1..Len(u) : Near(u[i], full[i], 3 + Abs(u[i]) \div 100000)
\* --- the Newton machine of one solve: run = [x, n0, cands, raise]
Stop(o, n, n0) == LET a == FCmp(n, o.tol) r == FCmp(n, FTimes(n0, o.rel[1], o.rel[2]))
                  IN IF a = "yes" \/ r = "yes" THEN "yes" ELSE IF a = "either" \/ r = "either" THEN "either" ELSE "no"
Walk(x, inc, k) == TLCEval([i \in 1..Len(x) |-> x[i] + (k * inc[i]) \div 8])      \* alpha = k/8
\* the possible step lengths (in eighths) of the step-halving line search
Alphas(pr, s0, D, x, inc) ==
  LET N(k) == NormFx(RedRes(pr, s0, D, Walk(x, inc, k)))
      n == TLCEval([i \in 1..4 |-> N(<<8, 4, 2, 1>>[i])])
      tol(i) == 3000 + n[i] \div 1000
      grows(i) == n[i + 1] > n[i] + tol(i)  keeps(i) == n[i + 1] < n[i] - tol(i)
      RECURSIVE Alph(_)
      Alph(i) == IF i = 4 THEN {1} ELSE IF grows(i) THEN {<<8, 4, 2, 1>>[i]} ELSE IF keeps(i) THEN Alph(i + 1) ELSE {<<8, 4, 2, 1>>[i]} \cup Alph(i + 1)
  IN Alph(1)
StartX(pr, s0, o) == IF o.guess = <<>> THEN [i \in 1..NUnknowns(pr, s0) |-> 0] ELSE U6(o.guess)
\* a solution beyond the fixed-point arithmetic of the specification
Far(u) == \E i \in 1..Len(u) : Abs(u[i]) > 12000000
Linear(pr, s0, o, run, e) ==
  LET D == DofsOf(pr, s0)
      n0 == IF run.n0 = <<>> THEN e.n ELSE run.n0
      ok == {c \in run.cands : LET r == RedRes(pr, s0, D, c) IN ~Bad(e.b, [i \in 1..Len(r) |-> -r[i]])}
      tan(c) == \A k \in 1..Len(o.dirs) : LET ex == RedTan(pr, s0, D, c, U6(o.dirs[k])) IN ~Bad(e.av[k], ex)
      nxt(c) == IF o.ls THEN {Walk(c, e.inc, k) : k \in Alphas(pr, s0, D, c, e.inc)} ELSE {Walk(c, e.inc, 8)}
      fails == When(run.raise, "continued_after_nonfinite") \cup When(~run.raise /\ ok = {}, "right_hand_side")
               \cup When(~run.raise /\ ok # {} /\ ~\E c \in ok : tan(c), "tangent")
               \cup When(Stop(o, e.n, n0) = "yes", "iterated_after_convergence")
  IN [run |-> [run EXCEPT !.n0 = n0, !.raise = e.bad, !.cands = IF e.bad THEN {} ELSE UNION {nxt(c) : c \in ok}], fails |-> fails]
Solved(pr, s0, o, run, e) ==
  LET n0 == IF run.n0 = <<>> THEN e.n ELSE run.n0 D == DofsOf(pr, s0) IN
  When(run.raise, "returned_nonfinite") \cup When(~e.shape, "shape") \cup When(~e.same, "input_changed")
  \cup When(o.back = "custom" /\ ~run.raise /\ ~\E c \in run.cands : ~Bad(e.u, Lift(s0.P, c)), "not_last_iterate")
  \cup When(o.back = "custom" /\ Stop(o, e.n, n0) = "no", "returned_unconverged")
  \cup When(~Tied(s0.P, e.u), "constraint_violated")
  \* without a record of the iterations: an equilibrium, by the residual of the specification
  \cup When(o.lin.kind # "unjudged" /\ Stop(o, e.n, run.start) = "no", "returned_unconverged")
  \cup When(~e.opts, "options_changed")
  \cup When(o.back # "custom" /\ LET r == Pull(s0.P, FullRes(pr, s0, D, e.u)) slack == IF o.lin.kind = "unjudged" THEN 0 ELSE FUp(o.tol) + FUp(FTimes(run.start, o.rel[1], o.rel[2]))
                                    IN \E i \in 1..Len(r) : Abs(r[i]) > 400 + slack, "not_equilibrium")
\* --- periodic ties: the pairs <<kept dof, tied dof>> of every condition, and what the matrix must look like
TiePairs(pts, vec, ties) == UNION {LET t == ties[i] IN
     {<<(a - 1) * vec + t.comp + 1, (b - 1) * vec + t.comp + 1>> : <<a, b>> \in {ab \in (1..Len(pts)) \X (1..Len(pts)) :
           Holds(t.A, pts[ab[1]], ab[1] - 1) /\ Holds(t.B, pts[ab[2]], ab[2] - 1) /\ pts[ab[2]] = VAdd(pts[ab[1]], t.delta)}} : i \in 1..Len(ties)}
TyingFails(pr, o, e) ==
  LET N == NDofs(pr) pairs == TLCEval(TiePairs(pr.meshes[1].pts, pr.vecs[1], o.ties)) unit == \A i \in 1..Len(e.rows) : Len(e.rows[i]) = 1 /\ e.rows[i][1][2] = 4 IN
  When(Len(e.rows) # N \/ ~unit, "unit_rows") \cup
  (IF Len(e.rows) # N \/ ~unit THEN {} ELSE
   LET col == TLCEval([i \in 1..N |-> e.rows[i][1][1]]) slave == {p[2] : p \in pairs} rep == TLCEval([i \in 1..N |-> IF i \in slave THEN (CHOOSE p \in pairs : p[2] = i)[1] ELSE i])
   IN When(\E i, j \in 1..N : rep[i] = rep[j] /\ col[i] # col[j], "not_tied") \cup When(\E i, j \in 1..N : rep[i] # rep[j] /\ col[i] = col[j], "tied_too_much")
      \cup When(e.cols # N - Cardinality(slave) \/ {col[i] : i \in 1..N} # 1..e.cols, "columns"))
\* the backends that ran in a differentiable call, when its options are judged
Calls(lo, dflt, e) == IF lo.kind = "unjudged" THEN {} ELSE UNION {CallFails(Resolve(lo, dflt), e.calls[i]) : i \in 1..Len(e.calls)} \cup When(~e.opts, "options_changed")
\* --- gradients.  wit[k]: a claimed derivative of the solution in direction k, checked before it is used
Dirs == <<"x1", "x2", "x3", "be", "ga">>
DRes(pr, s0, D, u, k) ==      \* twice the derivative of the constrained residual in direction k, at amplitude h
  CASE k \in {"x1", "x2", "x3"} -> LET rp == Residual([PhysOf(pr, s0) EXCEPT !.prm[k] = @ + 1], s0.cg, s0.sg, u)
                                       rm == Residual([PhysOf(pr, s0) EXCEPT !.prm[k] = @ - 1], s0.cg, s0.sg, u)
                                   IN Mask(D, [i \in 1..Len(u) |-> (rp[i] - rm[i]) \div 2], [i \in 1..Len(u) |-> 0])
    [] k = "be" -> [i \in 1..Len(u) |-> IF D[i] = <<>> THEN 0 ELSE
                      LET D0 == DofsOf(pr, [s0 EXCEPT !.be = [v \in 1..Len(@) |-> 0]])[i][1] IN -(D0 \div 4)]
    [] OTHER -> \* the nodes move: a central difference over an eighth of a unit
       LET at(g) == LET s1 == Geometry(pr, s0, [v \in 1..Len(pr.meshes) |-> [j \in 1..Len(pr.meshes[v].pts) |-> [d \in 1..pr.dim |->
                                64 * pr.meshes[v].pts[j][d] + (8 * s0.prm.ga + g) * pr.gdir[v][j][d]]]], 64 * pr.den)
                    IN Residual(PhysOf(pr, s0), s1.cg, s1.sg, u)
           rp == at(1) rm == at(-1)
       IN Mask(D, [i \in 1..Len(u) |-> 4 * (rp[i] - rm[i])], [i \in 1..Len(u) |-> 0])
DKey(k) == IF k = "be" THEN "beta" ELSE IF k = "ga" THEN "geo" ELSE k
Active(prm, k) == k \in {"x1", "x2", "x3"} \/ HasKey(prm, DKey(k))
Backward(pr, f, o, e) ==     \* f: [s (state of the problem at the forward call), u]
  LET D == DofsOf(pr, f.s)
      one(i) == LET k == Dirs[i] IN IF ~Active(f.s.prm, k) THEN {} ELSE
        LET du == e.wit[i] full == Lift(f.s.P, du)
            a == Pull(f.s.P, FullTan(pr, f.s, D, f.u, full)) b == Pull(f.s.P, DRes(pr, f.s, D, f.u, k))
            tolw == IF k = "ga" THEN 6000 ELSE 1200
            okw == Len(a) = Len(b) /\ \A j \in 1..Len(b) : Near(a[j], -b[j], tolw + Abs(b[j]) \div 300)
            ex == SumSeq([j \in 1..Len(full) |-> FMul(o.w[j] * Q4 + (o.z[j] * f.u[j]) \div 4, full[j])])
            mag == SumSeq([j \in 1..Len(full) |-> Abs(full[j])]) \div 200
        IN When(~okw, "derivative_witness") \cup When(~Near(e.g[i], ex, 800 + Abs(ex) \div 500 + (IF k = "ga" THEN mag ELSE mag \div 20)), "gradient_" \o DKey(k))
  IN UNION {one(i) : i \in 1..5} \cup Calls(o.alin, JaxPre, e) \cup When(~e.conform, "gradient_shape") \cup When(~e.same, "input_changed")
\* --- the transition of every event
MyApply(st0, sc, e) ==
  IF e.op = "setup" THEN
     LET k == e.pb pr == sc.pbs[k] IN
     IF st0.pbs[k].cg # <<>> THEN R0(st0, {"unexpected_event"}) ELSE
     IF SelOK(pr, e) THEN R0([st0 EXCEPT !.pbs[k] = Setup(pr, @, e)], {}) ELSE R0(st0, {"surface_sets"})
  ELSE IF st0.t > Len(sc.ops) THEN R0(st0, {"unexpected_event"})
  ELSE LET o == sc.ops[st0.t] k == o.pb pr == sc.pbs[k] s0 == st0.pbs[k] nx == [st0 EXCEPT !.t = @ + 1] IN
  IF s0.cg = <<>> THEN R0(st0, {"unexpected_event"})
  ELSE IF o.op = "solve" THEN
     CASE e.op = "solve" /\ st0.run = <<>> -> R0([st0 EXCEPT !.run = [n0 |-> <<>>, start |-> e.n, raise |-> FALSE, cands |-> {TLCEval(StartX(pr, s0, o))}]], {})
       [] e.op = "call" /\ st0.run # <<>> -> \* a backend of the libraries was asked to solve a system
            LET n0 == st0.run.start IN R0(st0, CallFails(Resolve(o.lin, JaxPre), e) \cup When(Stop(o, e.n, n0) = "yes", "iterated_after_convergence"))
       [] e.op = "linear" /\ st0.run # <<>> /\ o.back = "custom" -> LET r == Linear(pr, s0, o, st0.run, e) IN R0([st0 EXCEPT !.run = TLCEval(r.run)], r.fails)
       [] e.op = "solved" /\ st0.run # <<>> -> R0([nx EXCEPT !.run = <<>>], Solved(pr, s0, o, st0.run, e))
       [] e.op = "raised" /\ st0.run # <<>> -> R0([nx EXCEPT !.run = <<>>], When(~st0.run.raise /\ ~o.may, "unexpected_raise"))
       [] e.op = "budget" /\ st0.run # <<>> -> R0([nx EXCEPT !.run = <<>>], When(st0.run.n0 # <<>> /\ Stop(o, e.n, st0.run.n0) = "yes", "iterated_after_convergence"))
       [] OTHER -> R0(st0, {"unexpected_event"})
  ELSE IF o.op = "relax" THEN
     CASE e.op = "relax" /\ st0.run = <<>> -> R0([st0 EXCEPT !.run = [n0 |-> e.n, calls |-> <<>>]], {})
       [] e.op = "call" /\ st0.run # <<>> -> R0([st0 EXCEPT !.run.calls = Append(@, e)], {})
       [] e.op = "relaxed" /\ st0.run # <<>> -> R0([nx EXCEPT !.run = <<>>], RelaxFails(pr, s0, o, st0.run, e))
       [] e.op = "raised" /\ st0.run # <<>> -> R0([nx EXCEPT !.run = <<>>], When(~o.may, "unexpected_raise"))
       [] OTHER -> R0(st0, {"unexpected_event"})
  ELSE IF o.op = "arc" THEN
     CASE e.op = "arc" /\ st0.run = <<>> -> LET D == DofsOf(pr, s0) own == Plain(pr, s0, [i \in 1..Len(D) |-> 0]) IN
            R0([st0 EXCEPT !.run = [a |-> ArcStart(Len(D)), recs |-> <<>>, w |-> RefLoad(o, D, e.q), calls |-> <<>>]], When(o.ctl = "force" /\ Bad(e.own, own), "load_vector"))
       [] e.op = "call" /\ st0.run # <<>> -> R0([st0 EXCEPT !.run.calls = Append(@, e)], {})
       [] e.op = "step" /\ st0.run # <<>> -> LET f == StepFails(pr, s0, o, DofsOf(pr, s0), st0.run.w, st0.run.a, e) IN
            R0([st0 EXCEPT !.run = IF "step_broken" \in f THEN @ ELSE [@ EXCEPT !.calls = <<>>, !.recs = Append(@, e), !.a = TLCEval(After1(@, e))]], f)
       [] e.op = "arc_done" /\ st0.run # <<>> -> R0([nx EXCEPT !.run = <<>>], ArcDone(pr, s0, o, st0.run, e))
       [] e.op = "raised" /\ st0.run # <<>> -> R0([nx EXCEPT !.run = <<>>], When(~o.may, "unexpected_raise"))
       [] OTHER -> R0(st0, {"unexpected_event"})
  ELSE IF e.op # o.op THEN R0(st0, {"unexpected_event"})
  ELSE CASE o.op = "params" -> R0([nx EXCEPT !.pbs[k] = Install(pr, @, o.prm)], {})
    [] o.op = "bc" -> R0([nx EXCEPT !.pbs[k] = InstallBC(@, o.v + 1, o.conds)], {})
    [] o.op = "geometry" -> R0([nx EXCEPT !.pbs[k] = Geometry(pr, @, o.pts, pr.den)], {})
    [] o.op = "constrain" -> R0([nx EXCEPT !.pbs[k].P = o.P], {})
    [] o.op = "periodic" -> R0([nx EXCEPT !.pbs[k].P = e.rows], TyingFails(pr, o, e))
    [] o.op = "reject" -> R0(nx, When(~e.rejected, "malformed_accepted") \cup When(~e.opts, "options_changed"))
    [] o.op = "inputs" -> R0(nx, When(~e.same, "input_changed"))
    [] o.op = "residual" -> R0(nx, When(Bad(e.res, Plain(pr, s0, U6(o.u))), "residual") \cup When(~e.same, "input_changed"))
    [] o.op = "linearise" -> \* newton_update, then the assembled (and reduced) matrix
         LET D == DofsOf(pr, s0) u == U6(o.u)
             one(i) == LET dx == U6(o.dirs[i]) ex == Pull(s0.P, FullTan(pr, s0, D, u, Lift(s0.P, dx))) IN
               IF s0.P # <<>> THEN When(Bad(e.av[i], ex), "tangent") ELSE
               When(Len(e.av[i]) # Len(D) \/ \E j \in 1..Len(D) : D[j] = <<>> /\ ~Near(e.av[i][j], ex[j], TolR(ex[j])), "tangent")
               \cup When(Len(e.av[i]) # Len(D) \/ \E j \in 1..Len(D) : D[j] # <<>> /\ ~Near(e.av[i][j], ex[j], 2), "constrained_row")
         IN R0(nx, When(Bad(e.res, Plain(pr, s0, u)), "residual_with_tangent") \cup UNION {one(i) : i \in 1..Len(o.dirs)} \cup When(~e.same, "input_changed"))
    [] o.op = "capture" -> \* the system handed to the linear solver by a Newton solve from this state
         LET D == DofsOf(pr, s0) x == U6(o.u) r == RedRes(pr, s0, D, x)
             one(i) == When(Bad(e.av[i], RedTan(pr, s0, D, x, U6(o.dirs[i]))), "solver_tangent")
         IN R0(nx, When(Bad(e.b, [i \in 1..Len(r) |-> -r[i]]), "right_hand_side") \cup UNION {one(i) : i \in 1..Len(o.dirs)})
    [] o.op = "fwd" -> \* the differentiable wrapper: installs the parameters and solves
         LET s1 == Install(pr, s0, o.prm) D == DofsOf(pr, s1) IN
         R0([nx EXCEPT !.pbs[k] = s1, !.fw[o.key] = [s |-> s1, u |-> e.u]],
            Calls(o.slin, JaxPre, e) \cup (IF Far(e.u) THEN {} ELSE When(Bad(Pull(s1.P, FullRes(pr, s1, D, e.u)), [i \in 1..NUnknowns(pr, s1) |-> 0]), "not_equilibrium")) \cup When(~e.same, "input_changed") \cup When(~Tied(s1.P, e.u), "constraint_violated"))
    [] o.op = "bwd" -> LET f == st0.fw[o.key] IN R0([nx EXCEPT !.pbs[k] = Install(pr, @, f.s.prm)], IF Far(f.u) THEN {} ELSE Backward(pr, f, o, e))
    [] OTHER -> R0(st0, {"unexpected_event"})
=============================================================================
