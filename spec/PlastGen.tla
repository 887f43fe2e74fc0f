------------------------------ MODULE PlastGen -----------------------------
(* C16 scenarios: deformation histories (loading, unloading, reversal,       *)
(* dilation, rotation, holding) imposed on or solved for on small meshes.    *)
EXTENDS GenBase, Grid
ETs == <<"HEX8", "TET4", "HEX8", "TET10", "HEX20">>
Profiles == << <<3, 7, 12, 6, 0, -7, -14, -3, 4>>, <<20, 20, 21, 5, 45, 0>>, <<2, -2, 2, -2, 9, -9, 9, -9>>, <<1, 2, 3, 2, 1, 0, 1, 4, 9, 4>>, <<60, 120, 60, -60, 0>>, <<1, 1, 2, 2, 1>> >>
Fine == << <<12000, 12003, 12006, 12004, 12007, 12009, 2000>>, <<6000, 9000, 9001, 9002, 9001, 8998, 9004>>, <<-15000, -15002, -15001, -15004, -15040, -14000>> >>
Dirs(s) == [i \in 1..3 |-> [j \in 1..3 |-> PickR(s, 10 * i + j, -2, 2)]]
Dil == << <<1, 0, 0>>, <<0, 1, 0>>, <<0, 0, 1>> >>
Quats == << <<1, 0, 0, 0>>, <<3, 0, 0, 1>>, <<2, 1, -1, 0>>, <<1, 1, 1, 1>>, <<0, 0, 1, 2>>, <<5, 1, 0, -1>>, <<20, 1, -1, 0>> >>
Zero3 == << <<0, 0, 0>>, <<0, 0, 0>>, <<0, 0, 0>> >>
Op0 == [op |-> "commit", A |-> Zero3, q |-> Quats[1], pert |-> <<>>, ax |-> 0, hold |-> "", side |-> 0, V |-> Zero3]
Sc(e, r) ==
  LET s == SEED * 971 + e * 5003 + r * 211
      et == ETs[e]
      solves == r % 3 = 0 /\ et \in {"HEX8", "TET4"}
      kind == IF solves THEN "box" ELSE PickS(s, 1, <<"box", "shear", "extr">>)
      k2 == IF kind = "extr" /\ IsSimplex(et) THEN "shear" ELSE kind
      n == IF e = 1 THEN PickS(s, 2, << <<2, 1, 1>>, <<1, 1, 1>> >>) ELSE <<1, 1, 1>>
      base == IF IsSimplex(et) THEN "TET4" ELSE "HEX8"
      bm == Build(et, Frames(base, n, s, TRUE), s)
      m == TLCEval(MeshRec(bm, Coords(bm, k2, s)))
      fine == ~solves /\ r % 4 = 1
      p == IF fine THEN PickS(s, 3, Fine) ELSE PickS(s, 3, IF solves THEN <<Profiles[1], Profiles[3], Profiles[4], Profiles[6]>> ELSE Profiles)
      d1 == Dirs(s + 1) d2 == Dirs(s + 2) bent == PickS(s, 4, <<FALSE, TRUE>>)
      turning == Pick(s, 5, 3) # 0
      qat(i) == IF ~turning \/ fine THEN Quats[1] ELSE PickS(s, 100 + (i \div 2), Quats)
      way(i) == CASE Pick(s, 40 + i, 6) = 0 -> "peek" [] Pick(s, 40 + i, 6) = 2 -> "branch" [] Pick(s, 40 + i, 6) = 1 -> "again" [] OTHER -> "commit"
      one(i) == LET dir == IF fine THEN d1 ELSE IF Pick(s, 60 + i, 4) = 0 THEN d2 ELSE IF Pick(s, 60 + i, 8) = 7 THEN Dil ELSE d1 IN
         IF solves THEN [Op0 EXCEPT !.op = "solve", !.ax = 1 + Pick(s, 7, 3), !.hold = PickS(s, 8, <<"slide", "grip">>), !.side = IF Pick(s, 9, 2) = 0 THEN 0 ELSE 2 * p[i], !.A[1][1] = p[i]]
         ELSE [Op0 EXCEPT !.op = way(i), !.A = [a \in 1..3 |-> [b \in 1..3 |-> p[i] * dir[a][b]]], !.q = qat(i), !.V = Dirs(s + 30 + i),
                          !.pert = IF bent THEN [j \in 1..(3 * Len(m.pts)) |-> PickR(s + i, 200 + j, -2, 2)] ELSE <<>>]
      body == [i \in 1..Len(p) |-> one(i)]
      RECURSIVE Sprinkle(_)
      Sprinkle(i) == IF i > Len(body) THEN <<>> ELSE (IF i > 1 /\ Pick(s, 80 + i, 3) = 0 THEN <<[Op0 EXCEPT !.op = "again", !.V = Dirs(s + 50 + i)]>> ELSE <<>>) \o <<body[i]>> \o Sprinkle(i + 1)
      ops == (IF Pick(s, 90, 2) = 0 THEN <<>> ELSE <<[Op0 EXCEPT !.op = "flat"]>>) \o Sprinkle(1) \o <<[Op0 EXCEPT !.op = "again"], [Op0 EXCEPT !.op = "fresh"]>>
  IN [mesh |-> m, den |-> DenOf(k2), ops |-> ops, look |-> [i \in 1..4 |-> <<Pick(s, 20 + i, 50), Pick(s, 30 + i, 50)>>], unit |-> IF fine THEN 1000000 ELSE IF Pick(s, 91, 4) = 0 THEN 4000 ELSE 1000,
      order |-> IF et = "TET10" THEN 2 ELSE IF et = "HEX20" THEN 2 ELSE -1, cost |-> 1, grp |-> <<e, r>>]
Reps(e) == IF Thorough THEN 1..24 ELSE IF e = 1 THEN 1..12 ELSE IF e = 2 THEN 1..6 ELSE 1..3
ASSUME Emit(UNION {{Sc(e, r) : r \in Reps(e)} : e \in 1..Len(ETs)})
=============================================================================
