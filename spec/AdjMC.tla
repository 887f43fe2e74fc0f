-------------------------------- MODULE AdjMC ------------------------------
(* Forward and backward passes through one problem object that holds the     *)
(* installed parameters and the latest assembled matrix.  A backward pass    *)
(* installs the parameters of its own forward call, assembles at its own     *)
(* solution, and leaves concrete parameters behind.  For every interleaving, *)
(* every gradient is that of its own forward call and nothing is left traced.*)
EXTENDS Integers, Sequences
CONSTANT MaxOps
Pars == 1..3
Traced == -1
VARIABLES par, mat, fw, grads, n
vars == <<par, mat, fw, grads, n>>
Sol(p) == 10 * p                          \* the solution at parameters p
Init == par = 0 /\ mat = <<0, 0>> /\ fw = <<>> /\ grads = <<>> /\ n = 0
Op == n < MaxOps /\ n' = n + 1
Install(p) == Op /\ par' = p /\ UNCHANGED <<mat, fw, grads>>
\* a forward call solves: its last assembly is at its solution (or anywhere, for a scripted linear solver)
Forward(p) == Op /\ par' = p /\ mat' = <<p, Sol(p)>> /\ fw' = Append(fw, [p |-> p, u |-> Sol(p)]) /\ UNCHANGED grads
Evaluate(u) == Op /\ mat' = <<par, u>> /\ UNCHANGED <<par, fw, grads>>
\* the backward pass of call k, in its four phases
Backward(k) == /\ Op
               /\ LET f == fw[k]
                      p1 == f.p                      \* installed before the assembly
                      m1 == <<p1, f.u>>              \* the adjoint matrix
                      p2 == Traced                   \* while the derivative is traced
                      p3 == f.p                      \* put back
                  IN /\ grads' = Append(grads, [of |-> k, mat |-> m1, at |-> p1, traced |-> p2])
                     /\ par' = p3 /\ mat' = m1
               /\ UNCHANGED fw
Next == (\E p \in Pars : Install(p) \/ Forward(p)) \/ (\E u \in {5, 10} : Evaluate(u)) \/ (\E k \in 1..Len(fw) : Backward(k))
Own == \A i \in 1..Len(grads) : LET f == fw[grads[i].of] IN grads[i].mat = <<f.p, f.u>> /\ grads[i].at = f.p
Concrete == par # Traced /\ mat[1] # Traced
=============================================================================
