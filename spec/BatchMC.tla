------------------------------ MODULE BatchMC ------------------------------
(* Evaluation in batches: at most twenty groups of equal size, the last one  *)
(* taking the rest.  Every cell is evaluated exactly once, in order.         *)
EXTENDS Integers, Sequences
CONSTANT MaxCells
VARIABLES n, i, done
Cuts == IF 20 > n THEN n ELSE 20
Size == n \div Cuts
Batch(k) == IF k < Cuts - 1 THEN [j \in 1..Size |-> k * Size + j - 1] ELSE [j \in 1..(n - k * Size) |-> k * Size + j - 1]
Init == n \in 1..MaxCells /\ i = 0 /\ done = <<>>
Next == i < Cuts /\ done' = done \o Batch(i) /\ i' = i + 1 /\ UNCHANGED n
InOrder == \A j \in 1..Len(done) : done[j] = j - 1
Complete == i = Cuts => Len(done) = n
NonEmpty == i < Cuts => Len(Batch(i)) > 0
=============================================================================
