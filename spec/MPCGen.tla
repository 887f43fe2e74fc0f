------------------------------- MODULE MPCGen ------------------------------
(* C10 scenarios: solves, tangents and gradients with a multipoint           *)
(* constraint matrix: 0/1 tyings, general full-column-rank matrices, and the *)
(* matrices the periodic helper builds.                                      *)
EXTENDS PhysGen
LOCAL INSTANCE SequencesExt
Tols == << <<500000, -6>>, <<200000, -5>>, <<500000, -7>>, <<100000, -9>> >>
Rels == << <<1, -8>>, <<2, -1>>, <<5, -2>>, <<1, -1>> >>
Counts(f, s) == CASE f = 1 -> PickS(s, 3, << <<2,1>>, <<2,2>> >>) [] f = 2 -> PickS(s, 3, << <<2,1>>, <<2,2>> >>) [] OTHER -> PickS(s, 3, << <<1,1,1>>, <<2,1,1>> >>)
\* a matrix of n rows: nr kept dofs with a unit row, the others tied or combined
RandP(n, t, t2, general) ==
  LET nr == Max2(2, n - 1 - Pick(t, 1, (n + 1) \div 2)) pm == TLCEval(Perm(n, t2 + 3)) col == TLCEval(Perm(nr, t2 + 4))
      rank(i) == CHOOSE j \in 1..n : pm[j] = i
      row(i) == LET r == rank(i) IN
        IF r <= nr THEN << <<col[r], 4>> >>
        ELSE IF ~general THEN << <<1 + Pick(t2, 50 + i, nr), 4>> >>
        ELSE LET a == 1 + Pick(t2, 50 + i, nr) b == 1 + ((a + Pick(t2, 90 + i, nr - 1)) % nr)
             IN PickS(t2, 130 + i, << << <<a, 2>>, <<b, 2>> >>, << <<a, 1>>, <<b, 3>> >>, << <<a, -4>> >>, << <<a, 6>>, <<b, -2>> >>, <<>> , << <<a, 4>> >> >>)
  IN [i \in 1..n |-> row(i)]
\* periodic pairs of a box mesh: directions tied, per component
Bound(pts, k, up) == LET vs == {pts[j][k] : j \in 1..Len(pts)} IN IF up THEN MaxOf(vs) ELSE MinOf(vs)
Atom(d, k, op, c) == [a |-> [i \in 1..d |-> IF i = k THEN 1 ELSE 0], op |-> op, c |-> c]
Side(pts, k, up, excl) == LET d == Len(pts[1]) ex == SetToSeqSorted(excl) IN
   [atoms |-> << Atom(d, k, "eq", Bound(pts, k, up)) >> \o FlattenSeq([i \in 1..Len(ex) |-> << Atom(d, ex[i], "ge", Bound(pts, ex[i], FALSE) + 1), Atom(d, ex[i], "le", Bound(pts, ex[i], TRUE) - 1) >>]),
    conn |-> "and", args |-> 1, idx |-> <<>>]
Ties(pr, t) ==
  LET pts == pr.meshes[1].pts d == pr.dim
      two == Pick(t, 1, 3) = 0 k1 == 1 + Pick(t, 2, d) k2 == 1 + ((k1 + Pick(t, 3, d - 1)) % d)
      delta(k) == [i \in 1..d |-> IF i = k THEN Bound(pts, k, TRUE) - Bound(pts, k, FALSE) ELSE 0]
      back == Pick(t, 4, 2) = 0                        \* tie the upper side to the lower one or the reverse
      one(k, c, excl) == [A |-> Side(pts, k, back, excl), B |-> Side(pts, k, ~back, excl), comp |-> c, delta |-> IF back THEN [i \in 1..d |-> -delta(k)[i]] ELSE delta(k)]
      comps == IF pr.vecs[1] = 1 THEN <<0>> ELSE PickS(t, 5, << <<0>>, <<1>>, <<0, 1>>, <<1, 0>> >>)
  IN FlattenSeq([i \in 1..Len(comps) |-> << one(k1, comps[i], {}) >> \o (IF two THEN << one(k2, comps[i], {k1}) >> ELSE <<>>)])
Sc(f, r) ==
  LET s == SEED * 719 + f * 3011 + r * 139
      what == CASE r % 4 = 0 -> "periodic" [] r % 4 = 2 -> "adjoint" [] OTHER -> "newton"
      nv == IF what # "periodic" /\ f = 1 /\ r % 3 = 0 THEN 2 ELSE 1
      fam == IF what = "periodic" /\ f <= 2 THEN Families[f] ELSE <<Families[f][1]>>
      A == [f |-> f, fam |-> <<PickS(s, 2, fam)>>, nv |-> nv, n |-> Counts(f, s), kind |-> IF what = "periodic" THEN "box" ELSE PickS(s, 6, <<"box", "shear">>),
            vmax |-> IF f >= 3 \/ nv = 2 THEN 1 + Pick(s, 21, 2) ELSE 2, ns |-> Pick(s, 10, 2), mild |-> TRUE, mix |-> FALSE]
      p0 == Problem(s, A) nd == NDofOf(p0) t0 == s + 31
      P == TLCEval(RandP(nd, s + 19, s + 19, Pick(s, 17, 2) = 0))
      \* another matrix of the same shape: other ties, or the same pattern with other weights
      P2 == TLCEval(IF Pick(s, 23, 3) = 0 THEN [i \in 1..Len(P) |-> [k \in 1..Len(P[i]) |-> <<P[i][k][1], IF Len(P[i]) = 1 /\ Pick(s, 300 + i, 3) # 0 THEN P[i][k][2] ELSE P[i][k][2] + (IF P[i][k][2] > 0 THEN 1 ELSE -1)>>]] ELSE RandP(nd, s + 19, s + 77, Pick(s, 24, 2) = 0))
      nr == MaxOf(UNION {{P[i][k][1] : k \in 1..Len(P[i])} : i \in 1..Len(P)})
      conds == [v \in 1..nv |-> IF Pick(s, 16, 4) = 0 /\ what = "newton" THEN <<>> ELSE TameConds(p0, v, s + 5)]
      pr == TLCEval([p0 EXCEPT !.bcs = conds, !.order = SafeOrder(A.fam[1], s), !.P = IF what = "adjoint" \/ (what = "newton" /\ Pick(s, 18, 2) = 0) THEN P ELSE <<>>])
      item(t, n) == LET k == PickS(t, 1, <<"true", "true", "true", "vec">>) IN [k |-> k, c |-> PickS(t, 2, <<4, 4, 4, 3, 2, 8, -4>>), v |-> IF k = "vec" THEN VecOf(n, t + 3, 2) ELSE <<>>]
      script(t, n) == [i \in 1..Pick(t, 4, 4) |-> item(t + 211 * i, n)]
      solve(t) == [NoOp EXCEPT !.op = "solve", !.guess = IF Pick(t, 11, 3) = 0 THEN <<>> ELSE VecOf(nr, t, 3), !.full = Pick(t, 15, 2) = 0,
          !.tol = PickS(t, 12, Tols), !.rel = PickS(t, 13, Rels), !.ls = Pick(t, 8, 2) = 0, !.script = script(t, nr), !.dirs = <<VecOf(nr, t + 9, 3)>>]
      named(t) == [NoOp EXCEPT !.op = "solve", !.back = PickS(t, 3, <<"spsolve_solver", "default", "jax_solver">>), !.omit = <<"tol", "rel", "ls">>]
      grad(t, k, op) == [NoOp EXCEPT !.op = op, !.key = k, !.prm = [pv |-> Pick(t, 1, 30), x1 |-> Pick(t, 2, 3), x2 |-> PickR(t, 3, -2, 2), x3 |-> 0, be |-> 0, ga |-> 0, use |-> <<>>],
                 !.sopts = PickS(s, 61, <<"spsolve", "default", "petsc">>), !.aopts = PickS(s, 62, <<"spsolve", "default", "petsc", "gmres">>), !.w = VecOf(nd, t + 5, 3), !.z = VecOf(nd, t + 6, 2)]
      lin(t) == [NoOp EXCEPT !.op = "linearise", !.u = VecOf(nd, t, 3), !.dirs = <<VecOf(nr, t + 9, 3)>>]
      con == [NoOp EXCEPT !.op = "constrain", !.P = P]  con2 == [NoOp EXCEPT !.op = "constrain", !.P = P2]
      per(t) == [NoOp EXCEPT !.op = "periodic", !.ties = Ties(pr, t)]
      ops == CASE what = "newton" -> (IF pr.P = <<>> THEN << con >> ELSE <<>>) \o << solve(t0), lin(t0 + 7), con2, solve(t0 + 977), lin(t0 + 978) >> \o (IF pr.bcs[1] = <<>> THEN <<>> ELSE << named(t0 + 5) >>)
               [] what = "adjoint" -> << grad(t0, 1, "fwd"), lin(t0 + 3), grad(t0 + 8, 2, "fwd"), grad(t0 + 9, 1, "bwd"), named(t0 + 11), grad(t0 + 10, 2, "bwd"), con2, grad(t0 + 12, 1, "fwd"), grad(t0 + 13, 1, "bwd") >>
               [] OTHER -> << per(t0), named(t0 + 5), [NoOp EXCEPT !.op = "residual", !.u = VecOf(nd, t0, 3)] >>
  IN [pbs |-> <<pr>>, ops |-> ops, cost |-> 1, grp |-> <<f, r>>]
Reps(f) == IF Thorough THEN 1..24 ELSE IF f <= 2 THEN 1..9 ELSE 1..4
ASSUME Emit(UNION {{Sc(f, r) : r \in Reps(f)} : f \in 1..4})
=============================================================================
