------------------------------- MODULE AdjGen ------------------------------
(* C09 scenarios: histories of forward and backward passes through the       *)
(* differentiable wrapper, on one problem or on two interleaved ones, with   *)
(* plain operations in between.                                              *)
EXTENDS PhysGen
Lins == <<"default", "spsolve", "petsc", "jax", "jax_plain", "gmres", "flat_spsolve", "spsolve_ls">>
Adjs == <<"default", "spsolve", "petsc", "jax", "jax_plain", "gmres">>
Uses == << <<>>, <<"beta">>, <<"geo">>, <<"beta", "geo">> >>
Counts(f, s) == CASE f = 1 -> PickS(s, 3, << <<1,1>>, <<2,1>> >>) [] f = 2 -> PickS(s, 3, << <<1,1>>, <<2,1>> >>) [] OTHER -> <<1,1,1>>
Prm(t, use) == [pv |-> Pick(t, 1, 30), x1 |-> Pick(t, 2, 3), x2 |-> PickR(t, 3, -2, 2), x3 |-> PickR(t, 4, -2, 2),
                be |-> IF "beta" \in SeqToSet(use) THEN PickR(t, 5, -2, 4) ELSE 0, ga |-> IF "geo" \in SeqToSet(use) THEN PickR(t, 6, -1, 1) ELSE 0, use |-> use]
Prob(f, s, nv, ns) ==
  LET A == [f |-> f, fam |-> <<PickS(s, 2, IF f <= 2 /\ nv = 1 THEN Families[f] ELSE <<Families[f][1]>>)>>, nv |-> nv, n |-> Counts(f, s), kind |-> PickS(s, 6, <<"box", "shear">>),
            vmax |-> IF f >= 3 \/ nv = 2 THEN 1 + Pick(s, 21, 2) ELSE 2, ns |-> ns, mild |-> TRUE, mix |-> FALSE]
      p0 == Problem(s, A)
  IN TLCEval([p0 EXCEPT !.bcs = [v \in 1..nv |-> TameConds(p0, v, s + 5)], !.order = SafeOrder(A.fam[1], s)])
\* the shapes of a history: <<operation, problem, key>>
Histories1 == << << <<"fwd",1,1>>, <<"bwd",1,1>> >>,
   << <<"fwd",1,1>>, <<"fwd",1,2>>, <<"bwd",1,1>>, <<"residual",1,0>>, <<"bwd",1,2>>, <<"linearise",1,0>> >>,
   << <<"params",1,0>>, <<"fwd",1,1>>, <<"params",1,0>>, <<"bwd",1,1>>, <<"solve",1,0>>, <<"bwd",1,1>> >>,
   << <<"linearise",1,0>>, <<"fwd",1,1>>, <<"linearise",1,0>>, <<"bwd",1,1>>, <<"fwd",1,2>>, <<"bwd",1,2>>, <<"bwd",1,1>> >>,
   << <<"fwd",1,1>>, <<"params",1,0>>, <<"solve",1,0>>, <<"bwd",1,1>>, <<"solve",1,0>> >> >>
Histories2 == << << <<"fwd",1,1>>, <<"fwd",2,2>>, <<"bwd",1,1>>, <<"bwd",2,2>>, <<"solve",1,0>> >>,
   << <<"fwd",2,1>>, <<"linearise",1,0>>, <<"fwd",1,2>>, <<"bwd",2,1>>, <<"residual",1,0>>, <<"bwd",1,2>>, <<"solve",2,0>> >> >>
Sc(f, r) ==
  LET s == SEED * 613 + f * 4111 + r * 157
      two == r % 4 = 3
      nv(k) == IF f <= 2 /\ (r + k) % 3 = 0 THEN 2 ELSE 1
      use(k) == PickS(s, 20 + k, Uses)
      pbs == TLCEval([k \in 1..(IF two THEN 2 ELSE 1) |-> Prob(IF two /\ f >= 3 THEN 1 ELSE f, s + 7919 * k, nv(k), Pick(s, 30 + k, 3))])
      h == IF two THEN PickS(s, 41, Histories2) ELSE Histories1[1 + ((r + f + SEED) % Len(Histories1))]
      nd(k) == NDofOf(pbs[k])
      so(k) == PickS(s, 50 + k, Lins)  ao(k) == PickS(s, 60 + k, Adjs)
      op(i) == LET t == s + 977 * i x == h[i] k == x[2] base == [NoOp EXCEPT !.op = x[1], !.pb = k, !.sopts = so(k), !.aopts = ao(k)] IN
        CASE x[1] = "fwd" -> [base EXCEPT !.prm = Prm(t, use(k)), !.key = x[3]]
          [] x[1] = "bwd" -> [base EXCEPT !.key = x[3], !.w = VecOf(nd(k), t, 4), !.z = IF Pick(t, 8, 2) = 0 THEN VecOf(nd(k), t + 1, 2) ELSE [j \in 1..nd(k) |-> 0]]
          [] x[1] = "params" -> [base EXCEPT !.prm = Prm(t, use(k))]
          [] x[1] = "solve" -> [base EXCEPT !.back = "spsolve_solver", !.omit = <<"tol", "rel", "ls">>]
          [] x[1] = "residual" -> [base EXCEPT !.u = VecOf(nd(k), t, 3)]
          [] OTHER -> [base EXCEPT !.u = VecOf(nd(k), t, 3), !.dirs = <<VecOf(nd(k), t + 9, 3)>>]
  IN [pbs |-> pbs, ops |-> [i \in 1..Len(h) |-> op(i)], cost |-> 1 + (IF two THEN 1 ELSE 0), grp |-> <<f, r>>]
Reps(f) == IF Thorough THEN 1..20 ELSE IF f <= 2 THEN 1..9 ELSE 1..2
ASSUME Emit(UNION {{Sc(f, r) : r \in Reps(f)} : f \in 1..4})
=============================================================================
