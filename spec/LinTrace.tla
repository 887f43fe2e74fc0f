------------------------------ MODULE LinTrace ------------------------------
(* C08, linear backends: the specification of one linear solve.  The state   *)
(* is the number of solves made; every solve must return a solution of the   *)
(* system that was handed over, or raise; settings known to be adequate for  *)
(* a kind of matrix must not raise and must be accurate.                     *)
EXTENDS TraceBase, Num, Dec
LOCAL INSTANCE SequencesExt
MyInit(sc) == [k |-> 0]
Direct(o) == o.kind \in {"spsolve", "custom"} \/ (o.kind = "petsc" /\ o.ksp = "preonly")
\* settings that suit the kind of matrix
Suits(kind, o) ==
  LET jax == o.kind \in {"jax", "default"}
      general == {<<"bcgsl", "ilu">>, <<"bcgsl", "jacobi">>, <<"gmres", "ilu">>, <<"gmres", "jacobi">>, <<"gmres", "lu">>, <<"preonly", "lu">>, <<"tfqmr", "ilu">>, <<"tfqmr", "jacobi">>}
      plain == {<<"gmres", "none">>, <<"bcgsl", "none">>, <<"tfqmr", "none">>}
      sym == {<<"cg", "jacobi">>, <<"cg", "none">>, <<"minres", "jacobi">>, <<"minres", "none">>}
      kp == <<o.ksp, o.pc>>
  IN CASE kind = "singular" -> FALSE
       [] o.kind \in {"spsolve", "custom"} -> TRUE
       [] o.kind = "amgx" -> FALSE
       [] kind = "perm" -> FALSE
       [] kind = "rows" -> (jax /\ o.pre) \/ (o.kind = "petsc" /\ kp \in {<<"bcgsl", "ilu">>, <<"gmres", "ilu">>, <<"gmres", "lu">>, <<"preonly", "lu">>})
       [] kind = "indef" -> o.kind = "petsc" /\ kp \in {<<"gmres", "ilu">>, <<"gmres", "none">>, <<"gmres", "lu">>, <<"preonly", "lu">>, <<"minres", "none">>}
       [] kind = "dd" -> jax \/ (o.kind = "petsc" /\ kp \in general \cup plain)
       [] OTHER -> jax \/ (o.kind = "petsc" /\ kp \in general \cup plain \cup sym)
\* Lanczos methods may break down (they raise, or stop short of their tolerance), whatever the matrix
MayBreak(o) == o.kind = "petsc" /\ o.ksp \in {"bcgsl", "tfqmr"}
Scaled(v, e) == DNorm(v, -e)
NormSq(v) == DSum([i \in 1..Len(v) |-> DSq(v[i])])
Solution(sc, e) ==
  LET n == Len(sc.b)
      b == [i \in 1..n |-> Scaled(sc.b[i], sc.e)]
      r == [i \in 1..n |-> DSub(DSum([j \in 1..n |-> IF sc.A[i][j] = 0 THEN DZero ELSE DMul(DInt(sc.A[i][j]), e.x[j])]), b[i])]
      lim == DAdd(DMul(DTen(2), NormSq(b)), DSq(<<10000000, -16>>))       \* |r|^2 <= (0.1 |b|)^2 + (10^-9)^2
      big == FoldSeq(LAMBDA v, a : IF Abs(v) > a THEN Abs(v) ELSE a, 1, sc.xs)
      rel == IF Direct(sc.opt) THEN DTen(6) ELSE IF sc.opt.kind \in {"jax", "default"} THEN DTen(5) ELSE <<20000000, -10>>
      tol == DAdd(DMul(rel, Scaled(big, sc.e)), <<10000000, -16>>)
  IN IF Len(e.x) # n THEN {"solution_shape"}
     ELSE (IF \E j \in 1..n : DIsNan(e.x[j]) THEN {"not_finite"}
           ELSE (IF ~DLe(NormSq(r), lim) THEN {"wrong_solution"} ELSE {})
                \cup (IF Suits(sc.kind, sc.opt) /\ ~MayBreak(sc.opt) /\ \E j \in 1..n : ~DLe(DAbs(DSub(e.x[j], Scaled(sc.xs[j], sc.e))), tol) THEN {"inaccurate"} ELSE {}))
MyApply(st0, sc, e) ==
  LET fails == CASE e.op = "solved" -> Solution(sc, e) [] e.op = "raised" -> (IF Suits(sc.kind, sc.opt) /\ ~MayBreak(sc.opt) THEN {"refused"} ELSE {}) [] OTHER -> {"unexpected_event"}
      kept == IF e.op \notin {"solved", "raised"} THEN {} ELSE (IF ~e.opts THEN {"options_changed"} ELSE {}) \cup (IF ~e.args THEN {"arguments_changed"} ELSE {})
           \cup (IF sc.opt.kind = "custom" /\ e.calls # 1 THEN {"custom_not_called"} ELSE {}) \cup (IF sc.opt.kind = "custom" /\ ~e.passed THEN {"custom_arguments"} ELSE {})
           \cup (IF sc.opt.kind # "custom" /\ e.calls # 0 THEN {"custom_called"} ELSE {})
  IN [st |-> [k |-> st0.k + 1], fails |-> fails \cup kept \cup (IF st0.k >= 1 + (IF sc.again THEN 1 ELSE 0) THEN {"unexpected_event"} ELSE {})]
=============================================================================
