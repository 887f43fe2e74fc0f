------------------------------ MODULE NewtonGen ----------------------------
(* C07 scenarios: Newton solves against a scripted linear solver: exact      *)
(* increments, scaled ones, arbitrary ones, non-finite ones; tolerances and  *)
(* initial guesses of every kind; with and without line search.              *)
EXTENDS PhysGen
Counts(f, s) == CASE f = 1 -> PickS(s, 3, << <<1,1>>, <<2,1>> >>) [] f = 2 -> PickS(s, 3, << <<1,1>>, <<2,1>> >>) [] OTHER -> <<1,1,1>>
\* fixed tolerances: about 0.02 to 5, loose and tight relative ones
Tols == << <<500000, -6>>, <<200000, -5>>, <<500000, -7>>, <<100000, -4>>, <<250000, -7>>, <<100000, -9>> >>
Rels == << <<1, -8>>, <<2, -1>>, <<5, -2>>, <<1, -1>>, <<5, -1>> >>
Sc(f, r) ==
  LET s == SEED * 911 + f * 3313 + r * 127
      nv == IF f = 1 THEN 1 + (r % 2) ELSE IF f = 2 /\ r % 5 = 0 THEN 2 ELSE 1
      mild == r % 3 # 0
      cross == r % 3 = 0      \* residuals dominated by their quadratic part, and increments that cross from one root towards another
      A == [f |-> f, fam |-> <<Families[f][1]>>, nv |-> nv, n |-> Counts(f, s), kind |-> PickS(s, 6, <<"box", "shear">>),
            vmax |-> IF f = 4 \/ nv = 2 THEN 1 ELSE 2, ns |-> Pick(s, 10, 2), mild |-> mild, mix |-> FALSE]
      p0 == Problem(s, A)
      p1 == IF ~cross THEN p0 ELSE [p0 EXCEPT !.vecs = [v \in 1..nv |-> 2], !.mode = IF nv = 2 THEN @ ELSE PickS(s, 44, << <<"tensor", "mass">>, <<"universal">> >>),
             !.co = [v \in 1..nv |-> [a |-> 1, b |-> 0, g |-> 0, c |-> PickR(s, 300 + v, 5, 9), d |-> 0, e |-> 0, h |-> 0, m |-> 0]]]
      pr == TLCEval([p1 EXCEPT !.bcs = [v \in 1..nv |-> IF cross THEN <<>> ELSE MildConds(p0, v, s + 5)]])
      nd == NDofOf(pr)
      item(t) == LET k == PickS(t, 1, <<"true", "true", "true", "vec", "vec">>) IN
                 [k |-> k, c |-> PickS(t, 2, <<4, 4, 3, 2, 8, 12, -4, 16>>), v |-> IF k = "vec" THEN VecOf(nd, t + 3, 3) ELSE <<>>]
      bad(t) == [k |-> PickS(t, 1, <<"nan", "inf", "huge", "huge">>), c |-> Pick(t, 2, 50), v |-> <<>>]
      \* products of components that vanish near a small and near the full step length: the norm rises and falls again
      big(t) == [i \in 1..nd |-> IF i % 2 = 1 THEN 1 ELSE 8]
      same(t) == [k |-> "vec", c |-> 4, v |-> [i \in 1..nd |-> IF i % 2 = 1 THEN -PickR(t, 41, 7, 10) ELSE -PickR(t, 42, 6, 8)]]
      script(t) == LET n == Pick(t, 4, 4) IN [i \in 1..n |-> item(t + 211 * i)] \o (IF Pick(t, 5, 4) = 0 THEN << bad(t) >> ELSE <<>>)
      op(i) == LET t == s + 977 * i dt == Pick(t, 6, 3) = 0 dr == Pick(t, 7, 3) = 0 over == cross /\ i <= 2 ls == over \/ Pick(t, 8, 3) # 0 IN
        [NoOp EXCEPT !.op = "solve", !.guess = IF over THEN big(t) ELSE IF Pick(t, 11, 3) = 0 THEN <<>> ELSE VecOf(nd, t, 4), !.tol = IF dt THEN NoOp.tol ELSE PickS(t, 12, Tols),
          !.rel = IF dr THEN NoOp.rel ELSE PickS(t, 13, Rels), !.ls = ls, !.omit = (IF dt THEN <<"tol">> ELSE <<>>) \o (IF dr THEN <<"rel">> ELSE <<>>) \o (IF ~ls /\ Pick(t, 14, 2) = 0 THEN <<"ls">> ELSE <<>>),
          !.script = (IF over THEN <<same(t)>> ELSE <<>>) \o script(t), !.dirs = <<VecOf(nd, t + 9, 3)>>]
  IN [pbs |-> <<pr>>, ops |-> [i \in 1..4 |-> op(i)], cost |-> 1, grp |-> <<f, r>>]
Reps(f) == IF Thorough THEN 1..24 ELSE IF f <= 2 THEN 1..9 ELSE 1..4
ASSUME Emit(UNION {{Sc(f, r) : r \in Reps(f)} : f \in 1..4})
=============================================================================
