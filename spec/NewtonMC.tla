------------------------------ MODULE NewtonMC -----------------------------
(* Newton's method as the code runs it (loop test, step-halving loop, final  *)
(* assertions, comparisons with not-a-number false) against the declarative  *)
(* rules of C07, for every sequence of residual norms of a bounded length.   *)
EXTENDS Integers, Sequences
CONSTANT Steps, Levels       \* norms are 0..Levels or not a number
NaN == -1
Norms == 0..Levels \cup {NaN}
VARIABLES pc, n, n0, tol, rel, ls, used, seen, alpha, quad
vars == <<pc, n, n0, tol, rel, ls, used, seen, alpha, quad>>
Gt(a, b) == a # NaN /\ b # NaN /\ a > b
\* the relative norm n / n0 exceeds rel / 2; 0 / 0 is not a number
RelGt == n0 # 0 /\ n # NaN /\ n0 # NaN /\ 2 * n > rel * n0
Init == /\ pc = "test" /\ n \in Norms /\ n0 = n /\ tol \in 0..1 /\ rel \in 0..1 /\ ls \in BOOLEAN /\ used = 0 /\ seen = <<>> /\ alpha = 8 /\ quad = <<>>
Test == pc = "test" /\ pc' = (IF RelGt /\ Gt(n, tol) THEN "step" ELSE "end") /\ UNCHANGED <<n, n0, tol, rel, ls, used, seen, alpha, quad>>
\* the loop of the line search over the norms at the step lengths 1, 1/2, 1/4, 1/8 (in eighths)
RECURSIVE Halve(_, _, _)
Halve(q, i, a) == IF i = 4 THEN a ELSE IF Gt(q[i + 1], q[i]) THEN a ELSE Halve(q, i + 1, a \div 2)
Step == /\ pc = "step" /\ used < Steps
        /\ \E q \in [1..4 -> Norms] :
             /\ (~ls => \A i \in 2..4 : q[i] = 0)
             /\ LET a == IF ls THEN Halve(q, 1, 8) ELSE 8 IN
                /\ alpha' = a /\ quad' = q
                /\ n' = q[CASE a = 8 -> 1 [] a = 4 -> 2 [] a = 2 -> 3 [] OTHER -> 4]
        /\ used' = used + 1 /\ seen' = Append(seen, n) /\ pc' = "test" /\ UNCHANGED <<n0, tol, rel, ls>>
End == pc = "end" /\ pc' = (IF n = NaN THEN "raised" ELSE "returned") /\ UNCHANGED <<n, n0, tol, rel, ls, used, seen, alpha, quad>>
Next == Test \/ Step \/ End
\* --- the declarative rules
Stop(x) == x # NaN /\ (x <= tol \/ (n0 # NaN /\ 2 * x <= rel * n0))
ReturnsConverged == pc = "returned" => Stop(n)
RaisesOnlyNonfinite == pc = "raised" => n = NaN
NeverAfterConvergence == \A i \in 1..Len(seen) : ~Stop(seen[i]) /\ seen[i] # NaN
StepsOnlyIfNeeded == pc = "step" => ~Stop(n) /\ n # NaN
\* the last length before the norm first increases
Lengths == <<8, 4, 2, 1>>
FirstRise == {i \in 1..3 : Gt(quad[i + 1], quad[i]) /\ \A j \in 1..(i - 1) : ~Gt(quad[j + 1], quad[j])}
LengthRule == used > 0 => alpha = (IF ~ls THEN 8 ELSE IF FirstRise = {} THEN 1 ELSE Lengths[CHOOSE i \in FirstRise : TRUE])
=============================================================================
