------------------------------- MODULE LinGen ------------------------------
(* C08 scenarios: linear systems of integers for every backend and setting.  *)
EXTENDS GenBase
LOCAL INSTANCE SequencesExt
Off(s, i, j) == IF Pick(s, 100 + 17 * i + 29 * j, 3) = 0 THEN PickR(s, 200 + 13 * i + 31 * j, -2, 2) ELSE 0
\* diagonally dominant; symmetric ones mirror the upper triangle
Dominant(n, s, sym, sg(_)) == LET o == TLCEval([i \in 1..n |-> [j \in 1..n |-> IF i = j THEN 0 ELSE IF sym /\ j < i THEN Off(s, j, i) ELSE Off(s, i, j)]])
   IN [i \in 1..n |-> [j \in 1..n |-> IF i = j THEN sg(i) * (SumSeq([k \in 1..n |-> Abs(o[i][k])]) + PickR(s, 300 + i, 1, 4)) ELSE o[i][j]]]
Plus(i) == 1
Matrix(kind, n, s) ==
  CASE kind = "dd" -> Dominant(n, s, FALSE, Plus)
    [] kind = "spd" -> Dominant(n, s, TRUE, Plus)
    [] kind = "indef" -> LET sg(i) == IF Pick(s, 400 + i, 2) = 0 THEN 1 ELSE -1 IN Dominant(n, s, TRUE, sg)
    [] kind = "rows" -> LET A == Dominant(n, s, FALSE, Plus) IN     \* eliminated rows among stiff ones
         [i \in 1..n |-> IF Pick(s, 500 + i, 3) = 0 THEN [j \in 1..n |-> IF i = j THEN 1 ELSE 0] ELSE [j \in 1..n |-> 1000 * A[i][j]]]
    [] kind = "perm" -> LET p == Perm(n, s + 5) IN [i \in 1..n |-> [j \in 1..n |-> IF j = p[i] THEN PickR(s, 600 + i, 1, 3) ELSE 0]]
    [] OTHER -> [i \in 1..n |-> [j \in 1..n |-> IF i # j THEN (IF Abs(i - j) = 1 THEN -1 ELSE 0) ELSE (IF i = 1 \/ i = n THEN 1 ELSE 2)]]   \* singular
O(b, args, ksp, pc, pre) == [kind |-> b, args |-> args, ksp |-> ksp, pc |-> pc, pre |-> pre]
Jax == <<O("default", <<>>, "", "", TRUE), O("jax", <<>>, "", "", TRUE), O("jax", <<"pre">>, "", "", TRUE), O("jax", <<"pre">>, "", "", FALSE)>>
Pet(k, p) == O("petsc", <<"ksp", "pc">>, k, p, TRUE)
Petsc == <<O("petsc", <<>>, "bcgsl", "ilu", TRUE), O("petsc", <<"ksp">>, "gmres", "ilu", TRUE), O("petsc", <<"pc">>, "bcgsl", "jacobi", TRUE), Pet("gmres", "jacobi"), Pet("gmres", "none"), Pet("gmres", "lu"),
           Pet("bcgsl", "none"), Pet("preonly", "lu"), Pet("tfqmr", "ilu"), Pet("tfqmr", "jacobi"), Pet("tfqmr", "none"), Pet("tfqmr", "lu"), Pet("minres", "none"), Pet("minres", "jacobi"), Pet("cg", "jacobi"), Pet("cg", "none"), Pet("cg", "lu"),
           Pet("bicg", "jacobi"), Pet("bcgs", "ilu"), Pet("richardson", "none"), Pet("cgs", "lu")>>
Opts == TLCEval(Jax \o <<O("spsolve", <<>>, "", "", TRUE), O("spsolve", <<>>, "", "", TRUE), O("custom", <<>>, "", "", TRUE)>> \o Petsc \o <<O("amgx", <<>>, "", "", TRUE), O("amgx", <<"cfg">>, "", "", TRUE)>>)
Kinds == <<"dd", "spd", "indef", "rows", "perm", "singular">>
Sc(k, oi, r) ==
  LET s == SEED * 457 + k * 911 + oi * 131 + r * 37
      kind == Kinds[k]
      n == IF kind = "singular" THEN PickR(s, 1, 2, 6) ELSE PickR(s, 1, 1, IF Thorough THEN 14 ELSE 8)
      e == PickS(s, 3, <<0, 0, 3, 5, 7, 9>>)
      zero == kind # "singular" /\ Pick(s, 4, 12) = 0
      xs == [j \in 1..n |-> IF zero THEN 0 ELSE PickR(s, 700 + j, -9, 9)]
      A == TLCEval(Matrix(kind, n, s))
      \* the right-hand side of a singular system has a component no vector can produce
      b == IF kind = "singular" THEN [i \in 1..n |-> PickR(s, 800 + i, 1, 6)] ELSE [i \in 1..n |-> SumSeq([j \in 1..n |-> A[i][j] * xs[j]])]
  IN [kind |-> kind, A |-> A, xs |-> xs, b |-> TLCEval(b), e |-> e, opt |-> Opts[oi], x0 |-> PickS(s, 5, <<"none", "zero", "some", "exact", "zero">>),
      g |-> [j \in 1..n |-> PickR(s, 900 + j, -9, 9)], again |-> Pick(s, 6, 3) = 0, cost |-> 1, grp |-> <<k>>]
Reps == IF Thorough THEN 1..12 ELSE 1..2
ASSUME Emit({Sc(x[1], x[2], x[3]) : x \in {y \in (1..6) \X (1..Len(Opts)) \X Reps : ~((y[1] = 6) /\ (Opts[y[2]].kind = "custom"))}})
=============================================================================
