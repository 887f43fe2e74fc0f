------------------------------ MODULE PathOps ------------------------------
(* Operations of the other solution procedures, with every kind of option:   *)
(* dynamic relaxation, arc-length continuation, options to be rejected, and  *)
(* Newton solves whose linear backend is named in one of the documented ways.*)
EXTENDS PhysGen
L(k, args, ksp, pc, pre) == [kind |-> k, args |-> args, ksp |-> ksp, pc |-> pc, pre |-> pre]
Absent == L("absent", <<>>, "", "", TRUE)
Sure == << Absent, L("default", <<>>, "", "", TRUE), L("spsolve", <<>>, "", "", TRUE), L("jax", <<>>, "", "", TRUE), L("jax", <<"pre">>, "", "", FALSE), L("jax", <<"pre">>, "", "", TRUE),
           L("petsc", <<"ksp">>, "gmres", "", TRUE), L("petsc", <<"ksp", "pc">>, "gmres", "lu", TRUE), L("petsc", <<"ksp", "pc">>, "preonly", "lu", TRUE), L("petsc", <<"ksp", "pc">>, "gmres", "jacobi", TRUE),
           L("petsc", <<"ksp", "pc">>, "bicg", "lu", TRUE) >>
Risky == << L("petsc", <<>>, "", "", TRUE), L("petsc", <<"pc">>, "", "jacobi", TRUE), L("petsc", <<"pc">>, "", "lu", TRUE) >>      \* the default method may break down
Counts(f, s) == CASE f = 1 -> PickS(s, 3, << <<1,1>>, <<2,1>>, <<2,2>> >>) [] f = 2 -> PickS(s, 3, << <<1,1>>, <<2,1>>, <<2,2>> >>) [] OTHER -> <<1,1,1>>
Mild(f, s, nv, ns) ==
  LET A == [f |-> f, fam |-> <<Families[f][1]>>, nv |-> nv, n |-> Counts(f, s), kind |-> PickS(s, 6, <<"box", "shear">>),
            vmax |-> IF f = 4 THEN 1 ELSE 2, ns |-> ns, mild |-> TRUE, mix |-> FALSE]
      p0 == Problem(s, A)
  IN TLCEval([p0 EXCEPT !.bcs = [v \in 1..nv |-> TameConds(p0, v, s + 5)], !.order = SafeOrder(A.fam[1], s)])
\* --- relaxation
Tols == << <<100000, -8>>, <<100000, -10>>, <<100000, -12>>, <<100000, -13>>, <<300000, -9>>, <<100000, -6>>, <<500000, -5>>, <<200000, -4>> >>
RelaxOp(t, pr, nd) ==
  LET dt == Pick(t, 6, 4) = 0 dk == Pick(t, 7, 3) = 0 IN
  [NoOp EXCEPT !.op = "relax", !.lin = PickS(t, 5, Sure), !.guess = IF Pick(t, 11, 3) = 0 THEN <<>> ELSE VecOf(nd, t, 4), !.tol = IF dt THEN NoOp.tol ELSE PickS(t, 12, Tols),
    !.nkm = PickS(t, 13, <<0, 1, 3, 10, 1000>>), !.omit = (IF dt THEN <<"tol">> ELSE <<>>) \o (IF dk THEN <<"nkm">> ELSE <<>>), !.ls = Pick(t, 14, 2) = 0]
\* --- continuation
ArcPr(f, s, ctl, snap, rising, nv) ==
  LET disp == ctl = "displacement"
      p0 == Mild(f, s, nv, IF disp /\ rising THEN 0 ELSE IF disp THEN Pick(s, 51, 2) ELSE 1 + Pick(s, 51, 2))
      co(v) == LET c == p0.co[v] IN [c EXCEPT !.e = IF (disp /\ rising) \/ @ = 0 THEN 0 ELSE IF disp THEN @ ELSE PickR(s, 350 + v, 2, 5),
                  !.a = IF snap THEN PickR(s, 360 + v, 3, 6) ELSE @, !.c = IF snap /\ "universal" \notin SeqToSet(p0.mode) /\ "mass" \notin SeqToSet(p0.mode) THEN 0 ELSE IF snap THEN PickR(s, 370 + v, -12, 12) ELSE 0]
      bcs(v) == [i \in 1..Len(p0.bcs[v]) |-> LET c == p0.bcs[v][i] IN
                   IF disp /\ i = 1 THEN [c EXCEPT !.val.c = (IF Pick(s, 380 + v, 2) = 0 THEN 1 ELSE -1) * PickR(s, 390 + v, (p0.den + 1) \div 2, p0.den)]
                   ELSE IF disp \/ rising THEN [c EXCEPT !.val.c = IF disp THEN @ ELSE 0] ELSE c]
  IN TLCEval([p0 EXCEPT !.co = [v \in 1..nv |-> co(v)], !.bcs = [v \in 1..nv |-> bcs(v)]])
ArcOp(t, pr, nd, ctl, snap, rising) ==
  LET force == ctl = "force" IN
  [NoOp EXCEPT !.op = "arc", !.ctl = ctl, !.rising = rising, !.may = snap \/ ~rising, !.q = IF rising THEN [i \in 1..nd |-> 0] ELSE VecOf(nd, t + 1, 1),
    !.dl = PickS(t, 31, << <<1, -1>>, <<25, -2>>, <<5, -1>>, <<3, -1>>, <<75, -2>>, <<12, -2>> >>), !.psi = PickS(t, 32, << <<1, 0>>, <<5, -1>>, <<25, -2>>, <<2, 0>>, <<0, 0>>, <<1, -1>> >>),
    !.late = PickS(t, 33, << <<2, -1>>, <<4, -1>>, <<1, -1>> >>), !.switch = PickS(t, 34, <<0, 1, 2, 3, 50>>), !.maxs = PickS(t, 35, <<1, 2, 3, 5, 8, 12, 20>>),
    !.guess = IF Pick(t, 51, 3) = 0 THEN VecOf(nd, t + 2, 3) ELSE <<>>, !.ret = Pick(t, 36, 4) # 0, !.cb = Pick(t, 37, 4) # 0, !.lin = PickS(t, 38, Sure), !.nlin = PickS(t, 39, <<Absent, Absent>> \o Sure),
    !.omit = (IF Pick(t, 41, 4) = 0 THEN <<"dl">> ELSE <<>>) \o (IF Pick(t, 42, 4) = 0 THEN <<"psi">> ELSE <<>>) \o (IF Pick(t, 43, 3) = 0 THEN <<"late">> ELSE <<>>)
             \o (IF Pick(t, 44, 3) = 0 THEN <<"switch">> ELSE <<>>) \o (IF Pick(t, 45, 3) = 0 THEN <<"ntol">> ELSE <<>>) \o (IF Pick(t, 46, 2) = 0 THEN <<"nrel">> ELSE <<>>)
             \o (IF Pick(t, 47, 2) = 0 THEN <<"ret">> ELSE <<>>),
    !.ntol = PickS(t, 48, << <<100000, -11>>, <<100000, -13>>, <<100000, -8>> >>), !.nrel = PickS(t, 49, << <<1, -8>>, <<1, -4>>, <<1, -10>> >>)]
\* what is omitted has its default
Defaulted(o) == [o EXCEPT !.ntol = IF "ntol" \in SeqToSet(o.omit) THEN <<100000, -11>> ELSE @, !.nrel = IF "nrel" \in SeqToSet(o.omit) THEN <<1, -8>> ELSE @]
\* --- options that must be rejected
Bads == <<"newton_arc", "newton_relax", "arc_relax", "all", "list", "nothing", "name", "flag", "no_control", "other_control", "no_load">>
RejectOp(t) == [NoOp EXCEPT !.op = "reject", !.bad = PickS(t, 61, Bads), !.ctl = PickS(t, 62, <<"load", "Displacement", "", "disp">>)]
=============================================================================
