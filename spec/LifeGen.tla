------------------------------- MODULE LifeGen -----------------------------
(* C17 scenarios: several live problem objects (unrelated ones, copies that  *)
(* share their mesh and condition objects, or copies with other physics) and *)
(* a random interleaving of their histories.                                 *)
EXTENDS PhysGen
LOCAL INSTANCE SequencesExt
Counts(f, s) == CASE f = 1 -> PickS(s, 3, << <<1,1>>, <<2,1>> >>) [] f = 2 -> PickS(s, 3, << <<2,1>>, <<2,2>>, <<1,1>> >>) [] OTHER -> <<1,1,1>>
Uses == << <<>>, <<"beta">>, <<"geo">>, <<"beta", "geo">>, <<>> >>
Prm(t, use) == [pv |-> Pick(t, 1, 30), x1 |-> Pick(t, 2, 3), x2 |-> PickR(t, 3, -2, 2), x3 |-> PickR(t, 4, -2, 2),
                be |-> IF "beta" \in SeqToSet(use) THEN PickR(t, 5, -2, 4) ELSE 0, ga |-> IF "geo" \in SeqToSet(use) THEN PickR(t, 6, -1, 1) ELSE 0, use |-> use]
Prob(f, s, nv) ==
  LET A == [f |-> f, fam |-> <<PickS(s, 2, IF f <= 2 /\ nv = 1 THEN Families[f] ELSE <<Families[f][1]>>)>>, nv |-> nv, n |-> Counts(f, s), kind |-> PickS(s, 6, <<"box", "shear">>),
            vmax |-> IF f >= 3 \/ nv = 2 THEN 1 + Pick(s, 21, 2) ELSE 2, ns |-> Pick(s, 10, 3), mild |-> TRUE, mix |-> FALSE]
      p0 == Problem(s, A)
  IN TLCEval([p0 EXCEPT !.bcs = [v \in 1..nv |-> IF Pick(s, 16, 5) = 0 THEN <<>> ELSE TameConds(p0, v, s + 5)], !.order = SafeOrder(A.fam[1], s)])
\* histories of one problem
Lives == << <<"fwd1", "params", "residual", "bwd1", "linearise", "solve">>,
            <<"solve", "bc", "solve", "bc", "linearise", "capture">>,
            <<"linearise", "geometry", "solve", "params", "residual", "linearise">>,
            <<"fwd1", "bwd1", "bc", "fwd2", "residual", "bwd2", "capture">>,
            <<"constrain", "solve", "linearise", "bc", "solve">>,
            <<"fwd1", "fwd2", "bwd1", "solve", "bwd2", "linearise">>,
            <<"residual", "params", "linearise", "bc", "capture", "geometry", "linearise">>,
            <<"bc", "fwd1", "linearise", "bwd1", "geometry", "fwd2", "bwd2", "residual">>,
            <<"inputs", "linearise", "bc", "residual", "params", "solve", "inputs">> >>
RECURSIVE Merge(_, _, _)      \* hs[k]: the rest of the history of problem k
Merge(hs, t, acc) == LET ks == {k \in 1..Len(hs) : hs[k] # <<>>} IN IF ks = {} THEN acc
    ELSE LET k == SetToSeqSorted(ks)[1 + Pick(t, Len(acc) + 1, Cardinality(ks))]
         IN Merge([hs EXCEPT ![k] = Tail(@)], t, Append(acc, <<Head(hs[k]), k>>))
Free(pr, t) == LET n == NDofOf(pr) IN [i \in 1..n |-> << <<IF i = n THEN 1 + Pick(t, 1, n - 1) ELSE i, 4>> >>]
Sc(f, r) ==
  LET s == SEED * 881 + f * 4217 + r * 167
      nv == IF f <= 2 /\ r % 3 = 0 THEN 2 ELSE 1
      one == Prob(f, s, nv)
      how == PickS(s, 71, <<"same", "physics", "other", "three">>)
      two == CASE how = "same" -> one [] how = "physics" -> [one EXCEPT !.co = Prob(f, s, nv).co, !.co[1].a = @ + 3, !.co[1].b = 1 - @, !.bcs = [v \in 1..nv |-> TameConds(one, v, s + 55)]] [] OTHER -> Prob(1 + ((f + r) % 2), s + 7919, 1)
      pbs == TLCEval(<<one, two>> \o (IF how = "three" THEN <<one>> ELSE <<>>))
      use(k) == PickS(s, 20 + k, Uses)
      hist == Merge([k \in 1..Len(pbs) |-> Lives[1 + ((r + 4 * k + Pick(s, 80 + k, 3)) % Len(Lives))]], s, <<>>)
      nd(k) == NDofOf(pbs[k])
      V(i) == LET t == s + 977 * i IN 1 + Pick(t, 7, Len(pbs[hist[i][2]].meshes))
      RECURSIVE Was(_, _, _)      \* the conditions installed before operation i
      RECURSIVE New(_)
      Was(i, k, v) == IF i = 1 THEN pbs[k].bcs[v] ELSE IF hist[i - 1] = <<"bc", k>> /\ V(i - 1) = v THEN New(i - 1) ELSE Was(i - 1, k, v)
      New(i) == LET t == s + 977 * i k == hist[i][2] p == pbs[k] v == V(i) w == Was(i, k, v) hasbc == \A x \in 1..Len(p.meshes) : p.bcs[x] # <<>> IN
                TLCEval(IF w # <<>> /\ Pick(t, 33, 2) = 0 THEN Twin(p, v, w, t) ELSE IF hasbc THEN TameConds(p, v, t) ELSE AnyConds(p, v, 1 + Pick(t, 8, 2), t))
      op(i) == LET t == s + 977 * i x == hist[i][1] k == hist[i][2] p == pbs[k] v == V(i)
                   base == [NoOp EXCEPT !.pb = k, !.sopts = PickS(s, 50 + k, <<"spsolve", "default", "petsc">>), !.aopts = PickS(s, 60 + k, <<"spsolve", "petsc", "default">>)]
                   hasbc == \A w \in 1..Len(p.meshes) : p.bcs[w] # <<>>
                   solvable == hasbc
                   F(n) == [base EXCEPT !.op = "fwd", !.prm = Prm(t, use(k)), !.key = n + 2 * (k - 1)]
                   B(n) == [base EXCEPT !.op = "bwd", !.key = n + 2 * (k - 1), !.w = VecOf(nd(k), t, 4), !.z = [j \in 1..nd(k) |-> 0]]
                   L == [base EXCEPT !.op = "linearise", !.u = VecOf(nd(k), t, 3), !.dirs = IF \E j \in 1..(i - 1) : hist[j] = <<"constrain", k>> THEN <<VecOf(nd(k) - 1, t + 9, 3)>> ELSE <<VecOf(nd(k), t + 9, 3)>>] IN
        CASE x = "fwd1" -> IF solvable THEN F(1) ELSE L
          [] x = "fwd2" -> IF solvable THEN F(2) ELSE L
          [] x = "bwd1" -> IF solvable THEN B(1) ELSE L
          [] x = "bwd2" -> IF solvable THEN B(2) ELSE L
          [] x = "params" -> [base EXCEPT !.op = x, !.prm = Prm(t, use(k))]
          [] x = "solve" -> IF solvable THEN [base EXCEPT !.op = x, !.back = IF \E j \in 1..(i - 1) : hist[j] = <<"constrain", k>> THEN "spsolve_solver" ELSE PickS(t, 3, <<"spsolve_solver", "spsolve_solver", "default">>), !.omit = <<"tol", "rel", "ls">>] ELSE L
          [] x = "residual" -> [base EXCEPT !.op = x, !.u = VecOf(nd(k), t, 3)]
          [] x = "capture" -> [base EXCEPT !.op = x, !.u = VecOf(nd(k), t, 3), !.dirs = <<VecOf(nd(k), t + 9, 3)>>]
          [] x = "bc" -> [base EXCEPT !.op = x, !.v = v - 1, !.conds = New(i)]
          [] x = "geometry" -> [base EXCEPT !.op = x, !.pts = [w \in 1..Len(p.meshes) |-> [j \in 1..Len(p.meshes[w].pts) |-> LET q == p.meshes[w].pts[j] IN [m \in 1..p.dim |-> q[m] + (IF m < p.dim THEN q[m + 1] ELSE 0)]]]]
          [] x = "constrain" -> [base EXCEPT !.op = x, !.P = Free(p, t)]
          [] x = "inputs" -> [base EXCEPT !.op = x]
          [] OTHER -> L
  IN [pbs |-> pbs, ops |-> [i \in 1..Len(hist) |-> op(i)], cost |-> Len(pbs), grp |-> <<f, r>>]
Reps(f) == IF Thorough THEN 1..24 ELSE IF f <= 2 THEN 1..9 ELSE 1..3
ASSUME Emit(UNION {{Sc(f, r) : r \in Reps(f)} : f \in 1..4})
=============================================================================
