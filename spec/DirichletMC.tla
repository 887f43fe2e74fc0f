----------------------------- MODULE DirichletMC ---------------------------
(* Writing the conditions one after another (as the code does) gives the     *)
(* declarative constraint map, for every small list of conditions and after  *)
(* any replacement of the installed list.                                    *)
EXTENDS Integers, Sequences, FiniteSets, TLC
Nodes == 0..2
Comps == 0..1
Conds == [nodes : SUBSET Nodes, vec : Comps, val : {3, 5}]
VARIABLES conds, installs, res, sol
Dof == Nodes \X Comps
U0(d) == 10 * d[1] + d[2] + 1          \* the state
R0(d) == 100 + 7 * d[1] - d[2]         \* the unconstrained residual
Init == conds = <<>> /\ installs = 0 /\ res = [d \in Dof |-> R0(d)] /\ sol = [d \in Dof |-> U0(d)]
\* one more condition is processed: set the residual to u, subtract the value; set the solution to the value
Add == /\ Len(conds) < 2
       /\ \E c \in Conds :
           /\ conds' = Append(conds, c)
           /\ res' = [d \in Dof |-> IF d[1] \in c.nodes /\ d[2] = c.vec THEN U0(d) - c.val ELSE res[d]]
           /\ sol' = [d \in Dof |-> IF d[1] \in c.nodes /\ d[2] = c.vec THEN c.val ELSE sol[d]]
       /\ UNCHANGED installs
Replace == /\ installs < 2 /\ installs' = installs + 1 /\ conds' = <<>>
           /\ res' = [d \in Dof |-> R0(d)] /\ sol' = [d \in Dof |-> U0(d)]
Next == Add \/ Replace
Sel(d) == {i \in 1..Len(conds) : d[1] \in conds[i].nodes /\ d[2] = conds[i].vec}
Last(d) == CHOOSE i \in Sel(d) : \A j \in Sel(d) : j <= i
ResidualRule == \A d \in Dof : res[d] = IF Sel(d) = {} THEN R0(d) ELSE U0(d) - conds[Last(d)].val
AssignRule == \A d \in Dof : sol[d] = IF Sel(d) = {} THEN U0(d) ELSE conds[Last(d)].val
=============================================================================
