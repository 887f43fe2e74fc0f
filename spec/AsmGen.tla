------------------------------- MODULE AsmGen ------------------------------
(* C05 and C06 scenarios: meshes, physics, boundary sets and histories of    *)
(* evaluations.  IOEnv.WHICH chooses the flavour.                            *)
EXTENDS PhysGen
Which == IOEnv.WHICH
Counts(f, s, big) == CASE f = 1 -> IF big THEN PickS(s, 3, << <<5,3>>, <<11,2>>, <<7,3>>, <<10,1>> >>) ELSE PickS(s, 3, << <<2,2>>, <<3,1>>, <<1,1>> >>)
                       [] f = 2 -> IF big THEN PickS(s, 3, << <<7,3>>, <<8,5>>, <<20,1>>, <<19,1>>, <<6,4>> >>) ELSE PickS(s, 3, << <<2,2>>, <<3,1>>, <<1,1>> >>)
                       [] f = 3 -> IF big THEN PickS(s, 3, << <<2,2,1>>, <<4,1,1>> >>) ELSE <<1,1,1>>
                       [] f = 4 -> IF big THEN PickS(s, 3, << <<3,4,2>>, <<21,1,1>> >>) ELSE PickS(s, 3, << <<1,1,1>>, <<2,1,1>> >>)
                       [] OTHER -> <<1,1,1>>
Sc(f, r) ==
  LET s == SEED * 379 + f * 2503 + r * 101 + (IF Which = "C05" THEN 0 ELSE 7)
      big == Which = "C05" /\ r % 2 = 0
      nv == IF f = 5 \/ big THEN 1 ELSE 1 + (r % 3)
      kind == IF Which = "C05" THEN PickS(s, 6, <<"shear", "extr", "box", "curve">>) ELSE PickS(s, 6, <<"extr", "curve">>)
      A == [f |-> f, fam |-> IF big THEN <<Families[f][1]>> ELSE Families[f], nv |-> nv, n |-> Counts(f, s, big), kind |-> kind,
            vmax |-> IF f >= 4 THEN 2 ELSE 3, ns |-> IF Which = "C05" THEN Pick(s, 10, 4) ELSE Pick(s, 10, 3), mild |-> FALSE, mix |-> ~(f >= 3 /\ nv = 3)]
      p0 == Problem(s, A)
      pr == TLCEval([p0 EXCEPT !.bcs = [v \in 1..nv |-> IF Which = "C05" THEN <<>> ELSE AnyConds(p0, v, 1 + Pick(s, 50 + v, 2), s)]])
      nd == NDofOf(pr)
      Vec(t) == VecOf(nd, s + t, 4)
      Moved(t) == [v \in 1..nv |-> [j \in 1..Len(pr.meshes[v].pts) |-> IF nv = 1 /\ kind \in {"curve", "extr"}
                       THEN [k \in 1..pr.dim |-> pr.meshes[v].pts[j][k] + PickR(s + t, 7 * j + k, -1, 1)]
                       ELSE LET p == pr.meshes[v].pts[j] IN [k \in 1..pr.dim |-> p[k] + (IF k < pr.dim THEN p[k + 1] ELSE 0)]]]
      hist == IF Which = "C05"
              THEN (IF big THEN <<"residual", "linearise0">> ELSE <<"residual", "linearise0", "params", "residual", "geometry", "linearise0">>)
              ELSE PickS(s, 11, << <<"linearise", "bc", "linearise", "capture">>, <<"capture", "params", "capture", "bc", "linearise">>,
                                   <<"capture", "bc", "capture", "bc", "bc", "linearise">>, <<"linearise", "residual", "bc", "params", "capture">>,
                                   <<"capture", "geometry", "capture", "bc", "linearise">> >>)
      V(t) == 1 + Pick(s, 80 + t, nv)
      RECURSIVE Was(_, _)      \* the conditions installed before operation t
      RECURSIVE New(_)
      Was(t, v) == IF t = 1 THEN pr.bcs[v] ELSE IF hist[t - 1] = "bc" /\ V(t - 1) = v THEN New(t - 1) ELSE Was(t - 1, v)
      New(t) == LET v == V(t) w == Was(t, v) IN TLCEval(IF w # <<>> /\ Pick(s, 60 + t, 3) # 0 THEN Twin(pr, v, w, s + 31 * t) ELSE AnyConds(pr, v, Pick(s, 40 + 7 * t + v, 4), s + 1009 * t))
      O(op, t) == LET v == V(t) IN [NoOp EXCEPT !.op = op, !.u = IF op \in {"residual", "linearise", "capture"} THEN Vec(10 * t) ELSE <<>>,
                   !.dirs = IF op \in {"linearise", "capture"} THEN <<Vec(10 * t + 1)>> ELSE <<>>, !.v = v - 1,
                   !.conds = IF op = "bc" THEN New(t) ELSE <<>>,
                   !.prm = [Prm0 EXCEPT !.pv = Pick(s, 90 + t, 5), !.x2 = Pick(s, 91 + t, 3)], !.pts = IF op = "geometry" THEN Moved(t) ELSE <<>>]
      ops == [t \in 1..Len(hist) |-> IF hist[t] = "linearise0" THEN [O("linearise", t) EXCEPT !.dirs = <<>>] ELSE O(hist[t], t)]
  IN [pbs |-> <<pr>>, ops |-> ops, cost |-> 1 + nd \div 20, grp |-> <<f, r>>]
Reps(f) == IF Thorough THEN (IF f >= 4 THEN 1..10 ELSE 1..24) ELSE IF f = 5 THEN 1..1 ELSE IF f >= 3 THEN 1..5 ELSE 1..7
ASSUME Emit(UNION {{Sc(f, r) : r \in Reps(f)} : f \in 1..5})
=============================================================================
