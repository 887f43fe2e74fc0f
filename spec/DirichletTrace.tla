--------------------------- MODULE DirichletTrace --------------------------
(* C04.  The abstract state is the installed condition lists; every recorded *)
(* operation must act as its specification on the current lists.             *)
EXTENDS TraceBase, Dirichlet
\* numerators over den to fixed point
Fx(sc, v) == [i \in 1..Len(v) |-> v[i] * (S6 \div sc.den)]
Expected(sc, o, D) ==
   CASE o.op = "assign" -> AssignBC(D, o.u) [] o.op = "ones" -> AssignConst(D, o.u, sc.den) [] o.op = "zeros" -> AssignConst(D, o.u, 0)
     [] o.op = "copy" -> CopyBC(D, o.u) [] OTHER -> ApplyBC(D, o.r, o.u, IF o.op = "applyfn" THEN o.scale ELSE o.scale)
Clause(op) == CASE op = "assign" -> "assign_bc" [] op = "ones" -> "assign_ones" [] op = "zeros" -> "assign_zeros" [] op = "copy" -> "copy_bc" [] OTHER -> "constrained_residual"
MyInit(sc) == [bcs |-> sc.bcs, t |-> 1]
MyApply(s, sc, e) ==
  IF s.t > Len(sc.ops) \/ e.op # sc.ops[s.t].op THEN [st |-> s, fails |-> {"unexpected_event"}]
  ELSE LET o == sc.ops[s.t] IN
  IF o.op = "update" THEN [st |-> [bcs |-> [s.bcs EXCEPT ![o.v + 1] = o.conds], t |-> s.t + 1], fails |-> {}]
  ELSE LET D == AllDofs(s.bcs, sc.meshes, sc.vecs) ex == Fx(sc, Expected(sc, o, D)) IN
       [st |-> [s EXCEPT !.t = @ + 1],
        fails |-> (IF e.out # ex THEN {Clause(o.op)} ELSE {}) \cup (IF ~e.same THEN {"input_changed"} ELSE {})]
=============================================================================
