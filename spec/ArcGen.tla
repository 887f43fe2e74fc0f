------------------------------- MODULE ArcGen ------------------------------
(* C11 scenarios: arc-length continuation of stiffening and of snapping      *)
(* problems under displacement and force control.                            *)
EXTENDS PathOps
Sc(f, r) ==
  LET s == SEED * 733 + f * 3803 + r * 173
      nv == IF f <= 2 /\ r % 5 = 1 THEN 2 ELSE 1
      ctl == IF r % 2 = 0 THEN "displacement" ELSE "force"
      snap == r % 3 # 0
      rising == Pick(s, 71, 4) # 0
      pr == ArcPr(f, s, ctl, snap, rising, nv)
      nd == NDofOf(pr)
      op(i) == LET t == s + 977 * i IN
        IF i > 1 /\ Pick(t, 1, 4) = 0 THEN [NoOp EXCEPT !.op = "params", !.prm = [Prm0 EXCEPT !.pv = Pick(t, 4, 20), !.x1 = Pick(t, 5, 3), !.x2 = PickR(t, 6, -2, 2)]]
        ELSE Defaulted(ArcOp(t, pr, nd, ctl, snap, rising))
  IN [pbs |-> <<pr>>, ops |-> [i \in 1..3 |-> op(i)], cost |-> 1, grp |-> <<f, r>>]
\* weak springs under prescribed displacements: paths that fold back
Fold(r) ==
  LET s == SEED * 571 + r * 197 f == 1 + (r % 2)
      p0 == ArcPr(f, s, "displacement", TRUE, TRUE, IF r % 3 = 0 THEN 2 ELSE 1)
      pr == TLCEval([p0 EXCEPT !.co = [v \in 1..Len(p0.co) |-> [p0.co[v] EXCEPT !.a = PickR(s, 400 + v, 2, 5), !.c = IF @ = 0 /\ ("universal" \in SeqToSet(p0.mode) \/ "mass" \in SeqToSet(p0.mode)) THEN PickR(s, 410 + v, -9, -2) ELSE @]]])
      nd == NDofOf(pr)
      op(i) == LET t == s + 977 * i IN [Defaulted(ArcOp(t, pr, nd, "displacement", TRUE, TRUE)) EXCEPT !.maxs = PickS(t, 35, <<5, 12, 20>>), !.dl = PickS(t, 31, << <<1, -1>>, <<25, -2>>, <<12, -2>>, <<5, -1>> >>), !.psi = PickS(t, 32, << <<1, -1>>, <<25, -2>>, <<1, 0>> >>)]
  IN [pbs |-> <<pr>>, ops |-> [i \in 1..4 |-> op(i)], cost |-> 1, grp |-> <<9, r>>]
Folds == IF Thorough THEN 1..40 ELSE 1..14
Reps(f) == IF Thorough THEN 1..30 ELSE IF f <= 2 THEN 1..10 ELSE 1..4
ASSUME Emit(UNION {{Sc(f, r) : r \in Reps(f)} : f \in 1..4} \cup {Fold(r) : r \in Folds})
=============================================================================
