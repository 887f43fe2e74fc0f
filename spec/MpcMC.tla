-------------------------------- MODULE MpcMC ------------------------------
(* The numbering that builds a periodic tying matrix (as the code does: tied *)
(* dofs point at their kept dof, the others are counted through), against    *)
(* the declarative rules, for every set of unchained ties on N dofs; and     *)
(* what the reduced equations mean.                                          *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANT N
Dofs == 1..N
VARIABLES tie, map, i, cnt, col
\* tie[b] = the dof that b follows, 0 if b is kept
vars == <<tie, map, i, cnt, col>>
Init == /\ tie \in {t \in [Dofs -> 0..N] : \A b \in Dofs : t[b] # b /\ (t[b] # 0 => t[t[b]] = 0)}
        /\ map = [b \in Dofs |-> IF tie[b] # 0 THEN -tie[b] ELSE 0] /\ i = 1 /\ cnt = 0 /\ col = <<>>
Count == i <= N /\ map' = [map EXCEPT ![i] = IF @ = 0 THEN cnt + 1 ELSE @] /\ cnt' = (IF map[i] = 0 THEN cnt + 1 ELSE cnt) /\ i' = i + 1 /\ UNCHANGED <<tie, col>>
Read == i > N /\ Len(col) < N /\ col' = Append(col, LET k == Len(col) + 1 IN IF map[k] < 0 THEN map[-map[k]] ELSE map[k]) /\ UNCHANGED <<tie, map, i, cnt>>
Next == Count \/ Read
Rep(b) == IF tie[b] = 0 THEN b ELSE tie[b]
Kept == {b \in Dofs : tie[b] = 0}
Finished == Len(col) = N
Exactly == Finished => \A a, b \in Dofs : (col[a] = col[b]) <=> (Rep(a) = Rep(b))
Columns == Finished => cnt = Cardinality(Kept) /\ {col[b] : b \in Dofs} = 1..cnt
\* the reduced residual is the sum over the tied dofs, the reduced tangent its derivative: row sums of column sums
A(a, b) == 3 * a - 2 * b + (IF a = b THEN 7 ELSE 0)          \* unsymmetric
Sum(S, f(_)) == LET RECURSIVE T(_) T(X) == IF X = {} THEN 0 ELSE LET x == CHOOSE y \in X : TRUE IN f(x) + T(X \ {x}) IN T(S)
Class(c) == {b \in Dofs : col[b] = c}
U(x) == [b \in Dofs |-> x[col[b]]]
\* P^T (A (P x)) computed row by row equals (P^T A P) x with entries summed over the classes
Reduced == Finished => LET x == [c \in 1..cnt |-> 2 * c - 3] IN \A c \in 1..cnt :
   Sum(Class(c), LAMBDA a : Sum(Dofs, LAMBDA b : A(a, b) * U(x)[b])) = Sum(1..cnt, LAMBDA d : x[d] * Sum(Class(c), LAMBDA a : Sum(Class(d), LAMBDA b : A(a, b))))
=============================================================================
