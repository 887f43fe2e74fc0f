----------------------------- MODULE Dirichlet -----------------------------
(* Dirichlet data.  The state is the list of installed conditions of every   *)
(* variable; a condition selects nodes by a predicate, names a component and *)
(* gives an affine value function.  Later conditions override earlier ones.  *)
EXTENDS FaceSel
\* cond: [p (predicate), vec, val |-> [a, c]]     mesh: [pts, ...]; values are numerators over den
CondVal(cd, x) == SumSeq([k \in 1..Len(x) |-> cd.val.a[k] * x[k]]) + cd.val.c
\* the constraint of dof (node j, component k) of one variable: <<>> when free, <<value>> otherwise
RECURSIVE LastVal(_, _, _, _, _)
LastVal(conds, x, j, k, i) == IF i = 0 THEN <<>>
   ELSE IF conds[i].vec = k /\ Holds(conds[i].p, x, j) THEN <<CondVal(conds[i], x)>> ELSE LastVal(conds, x, j, k, i - 1)
DofOf(conds, x, j, k) == LastVal(conds, x, j, k, Len(conds))
\* all dofs in the flattened order: variable, node, component
RECURSIVE Concat(_)
Concat(ss) == IF ss = <<>> THEN <<>> ELSE Head(ss) \o Concat(Tail(ss))
VarDofs(conds, pts, vec) == [i \in 1..(Len(pts) * vec) |-> DofOf(conds, pts[((i - 1) \div vec) + 1], (i - 1) \div vec, (i - 1) % vec)]
AllDofs(bcs, meshes, vecs) == TLCEval(Concat([v \in 1..Len(meshes) |-> VarDofs(bcs[v], meshes[v].pts, vecs[v])]))
\* the operations, on vectors of numerators; D = AllDofs
AssignBC(D, u) == [i \in 1..Len(D) |-> IF D[i] = <<>> THEN u[i] ELSE D[i][1]]
AssignConst(D, u, c) == [i \in 1..Len(D) |-> IF D[i] = <<>> THEN u[i] ELSE c]
CopyBC(D, u) == [i \in 1..Len(D) |-> IF D[i] = <<>> THEN 0 ELSE u[i]]
ApplyBC(D, res, u, scale) == [i \in 1..Len(D) |-> IF D[i] = <<>> THEN res[i] ELSE u[i] - scale * D[i][1]]
\* random conditions
RandCond(pts, vec, s) == [p |-> RandPred(pts, s + 3), vec |-> Pick(s, 4, vec),
    val |-> [a |-> [k \in 1..Len(pts[1]) |-> PickR(s, 5 + k, -2, 2)], c |-> PickR(s, 9, -6, 6)]]
=============================================================================
