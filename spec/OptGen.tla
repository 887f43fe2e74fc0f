------------------------------- MODULE OptGen ------------------------------
(* C08 scenarios: every documented form of solver options, with the values   *)
(* and backends they name, in one session after another.                     *)
EXTENDS PathOps
NTols == << <<500000, -6>>, <<200000, -7>>, <<100000, -9>>, <<100000, -12>>, <<100000, -4>> >>
NRels == << <<1, -8>>, <<1, -1>>, <<1, -2>>, <<1, -4>>, <<5, -1>> >>
Kinds == <<"solve", "solve", "script", "script", "risky", "relax", "arc", "reject", "reject", "plain", "grad">>
Sc(f, r) ==
  LET s == SEED * 797 + f * 3571 + r * 139
      nv == IF f <= 2 /\ r % 4 = 1 THEN 2 ELSE 1
      ctl == PickS(s, 17, <<"displacement", "force">>)
      arc == r % 3 = 0
      pr == IF arc THEN ArcPr(f, s, ctl, FALSE, TRUE, nv) ELSE Mild(f, s, nv, Pick(s, 10, 2))
      nd == NDofOf(pr)
      so == PickS(s, 18, Sure)  ao == PickS(s, 19, Tail(Sure))  form == IF so.kind = "absent" THEN PickS(s, 20, <<"nested", "flat", "empty", "none">>) ELSE PickS(s, 20, <<"nested", "flat">>)
      op(i) == LET t == s + 977 * i k0 == PickS(t, 1, Kinds) k == IF k0 = "arc" /\ ~arc THEN "script" ELSE k0
          dt == Pick(t, 6, 3) = 0 dr == Pick(t, 7, 3) = 0 lsf == Pick(t, 8, 4)
          base == [NoOp EXCEPT !.op = "solve", !.form = PickS(t, 21, <<"nested", "flat">>), !.guess = IF Pick(t, 11, 3) = 0 THEN <<>> ELSE VecOf(nd, t, 4), !.ls = lsf = 1, !.back = "judged", !.tol = IF dt THEN NoOp.tol ELSE PickS(t, 12, NTols), !.rel = IF dr THEN NoOp.rel ELSE PickS(t, 13, NRels),
                   !.omit = (IF dt THEN <<"tol">> ELSE <<>>) \o (IF dr THEN <<"rel">> ELSE <<>>) \o (IF lsf >= 2 THEN <<"ls">> ELSE <<>>)]
          item(x) == LET q == PickS(x, 1, <<"true", "true", "vec">>) IN [k |-> q, c |-> PickS(x, 2, <<4, 4, 3, 2, 8, 16>>), v |-> IF q = "vec" THEN VecOf(nd, x + 3, 3) ELSE <<>>]
        IN CASE k = "solve" -> [base EXCEPT !.lin = PickS(t, 22, Sure)]
             [] k = "script" -> [base EXCEPT !.lin = L("custom", <<>>, "", "", TRUE), !.back = "custom", !.script = [j \in 1..Pick(t, 4, 4) |-> item(t + 211 * j)], !.dirs = <<VecOf(nd, t + 9, 3)>>]
             [] k = "risky" -> [base EXCEPT !.lin = PickS(t, 22, Risky), !.may = TRUE]
             [] k = "plain" -> [base EXCEPT !.form = PickS(t, 21, <<"none", "empty", "nested">>), !.lin = Absent, !.guess = <<>>, !.omit = <<"tol", "rel", "ls">>, !.tol = NoOp.tol, !.rel = NoOp.rel, !.ls = FALSE]
             [] k = "relax" -> RelaxOp(t, pr, nd)
             [] k = "arc" -> Defaulted([ArcOp(t, pr, nd, ctl, FALSE, TRUE) EXCEPT !.maxs = PickS(t, 35, <<1, 2, 5, 20>>)])
             [] k = "reject" -> RejectOp(t)
             [] OTHER -> [NoOp EXCEPT !.op = "fwd", !.form = form, !.slin = so, !.alin = ao, !.prm = [Prm0 EXCEPT !.pv = Pick(t, 2, 20), !.x1 = Pick(t, 3, 3)], !.key = 1]
      ops == [i \in 1..7 |-> op(i)]
      RECURSIVE Fill(_)
      Fill(i) == IF i > Len(ops) THEN <<>> ELSE IF ops[i].op # "fwd" THEN <<ops[i]>> \o Fill(i + 1)
                 ELSE <<ops[i], [NoOp EXCEPT !.op = "bwd", !.form = form, !.slin = so, !.alin = ao, !.key = 1, !.w = VecOf(nd, s + i, 4), !.z = [j \in 1..nd |-> 0]]>> \o Fill(i + 1)
  IN [pbs |-> <<pr>>, ops |-> Fill(1), cost |-> 1, grp |-> <<f, r>>]
Reps(f) == IF Thorough THEN 1..24 ELSE IF f <= 2 THEN 1..10 ELSE 1..3
ASSUME Emit(UNION {{Sc(f, r) : r \in Reps(f)} : f \in 1..4})
=============================================================================
