------------------------------ MODULE RelaxGen -----------------------------
(* C12 scenarios: dynamic relaxation of stable problems, repeatedly and      *)
(* between other operations on the same problem.                             *)
EXTENDS PathOps
Sc(f, r) ==
  LET s == SEED * 719 + f * 3041 + r * 163
      nv == IF f <= 2 /\ r % 3 = 1 THEN 2 ELSE 1
      unstable == r % 8 = 5      \* relaxation runs away: it must not return
      p0 == Mild(f, s, nv, Pick(s, 10, 3))
      pr == IF unstable THEN [p0 EXCEPT !.co = [v \in 1..nv |-> [p0.co[v] EXCEPT !.a = -@]]] ELSE p0
      nd == NDofOf(pr)
      op(i) == LET t == s + 977 * i IN
        IF unstable THEN [RelaxOp(t, pr, nd) EXCEPT !.may = TRUE, !.ls = TRUE, !.tol = IF Pick(t, 12, 2) = 0 THEN NoOp.tol ELSE <<100000, -8>>] ELSE
        IF i > 1 /\ Pick(t, 1, 3) = 0 THEN
          CASE Pick(t, 2, 3) = 0 -> [NoOp EXCEPT !.op = "bc", !.v = Pick(t, 3, nv), !.conds = TameConds(pr, 1 + Pick(t, 3, nv), t)]
            [] Pick(t, 2, 3) = 1 -> [NoOp EXCEPT !.op = "params", !.prm = [Prm0 EXCEPT !.pv = Pick(t, 4, 20), !.x1 = Pick(t, 5, 3), !.x2 = PickR(t, 6, -2, 2)]]
            [] OTHER -> [NoOp EXCEPT !.op = "solve", !.back = "spsolve_solver", !.omit = <<"tol", "rel", "ls">>]
        ELSE RelaxOp(t, pr, nd)
  IN [pbs |-> <<pr>>, ops |-> [i \in 1..5 |-> op(i)], cost |-> 1, grp |-> <<f, r>>]
Reps(f) == IF Thorough THEN 1..24 ELSE IF f <= 2 THEN 1..9 ELSE 1..3
ASSUME Emit(UNION {{Sc(f, r) : r \in Reps(f)} : f \in 1..4})
=============================================================================
