-------------------------------- MODULE ArcMC ------------------------------
(* Arc-length continuation along every polygonal path of a bounded length:   *)
(* the two candidate states of a step are the next and the previous vertex   *)
(* (both at the arc length from the current one); the root with the larger   *)
(* product with the previous increment keeps travelling, through any number  *)
(* of corrector passes, and the outer loop stops where it must.              *)
EXTENDS Integers, Sequences
CONSTANT MaxLen
\* increments <<du, dlam>>, lam in thirds of the full load; every pair of opposite ones occurs
Dirs == {<<0, 1>>, <<1, 1>>, <<1, 0>>, <<1, -1>>, <<0, -1>>, <<-1, -1>>, <<-1, 1>>}
Target == 3
VARIABLES path, pos, prev, hist, passes, cur, lims, state
\* path: increments; pos: steps made; prev: the previous increment; cur: the candidate the corrector holds, 0 none
vars == <<path, pos, prev, hist, passes, cur, lims, state>>
Dot(a, b) == a[1] * b[1] + a[2] * b[2]
Neg(a) == <<-a[1], -a[2]>>
RECURSIVE Lam(_, _)
Lam(p, k) == IF k = 0 THEN 0 ELSE Lam(p, k - 1) + p[k][2]
\* smooth paths: consecutive increments do not turn back by more than a right angle and a half
Paths == {p \in [1..MaxLen -> Dirs] : p[1][2] > 0 /\ \A k \in 1..(MaxLen - 1) : Dot(p[k], p[k + 1]) > -1}
Init == path \in Paths /\ pos = 0 /\ prev = <<0, 0>> /\ hist = <<>> /\ passes = 0 /\ cur = 0 /\ lims \in [max : 1..MaxLen, switch : 0..2] /\ state = "run"
Fwd == path[pos + 1]
Back == IF pos = 0 THEN Neg(path[1]) ELSE Neg(path[pos])
\* one corrector pass: both roots are compared with the increment of the previous step (its own first result on the first step)
Choose(dir) == IF Dot(dir, Fwd) = 0 /\ Dot(dir, Back) = 0 THEN (IF Fwd[2] >= Back[2] THEN 1 ELSE -1) ELSE IF Dot(dir, Fwd) > Dot(dir, Back) THEN 1 ELSE -1
Pass == /\ state = "run" /\ pos < lims.max /\ passes < 3
        /\ cur' = Choose(IF pos = 0 /\ cur # 0 THEN (IF cur = 1 THEN Fwd ELSE Back) ELSE prev)
        /\ passes' = passes + 1 /\ UNCHANGED <<path, pos, prev, hist, lims, state>>
Accept == /\ state = "run" /\ passes > 0 /\ cur = 1
          /\ pos' = pos + 1 /\ prev' = Fwd /\ passes' = 0 /\ cur' = 0
          /\ hist' = Append(hist, [step |-> pos, lam |-> Lam(path, pos + 1), late |-> ~(pos < lims.switch)])
          /\ state' = (IF Lam(path, pos + 1) >= Target THEN "polish" ELSE IF pos + 1 = lims.max THEN "short" ELSE "run")
          /\ UNCHANGED <<path, lims>>
Next == Pass \/ Accept
Onwards == cur # -1
Numbered == \A i \in 1..Len(hist) : hist[i].step = i - 1
StopsAtFirst == \A i \in 1..Len(hist) : (hist[i].lam >= Target) => i = Len(hist)
Within == Len(hist) <= lims.max
PolishedIffReached == (state = "polish") <=> (Len(hist) > 0 /\ hist[Len(hist)].lam >= Target)
ShortIffExhausted == state = "short" => Len(hist) = lims.max /\ hist[Len(hist)].lam < Target
SwitchRule == \A i \in 1..Len(hist) : hist[i].late = (i > lims.switch)
=============================================================================
