------------------------------ MODULE PhysGen ------------------------------
(* Problems for the session scenarios: meshes, physics and boundary data.    *)
EXTENDS GenBase, Dirichlet
LOCAL INSTANCE SequencesExt
Families == << <<"TRI3", "TRI6">>, <<"QUAD4", "QUAD8">>, <<"TET4", "TET10">>, <<"HEX8", "HEX20">>, <<"HEX27">> >>
Prm0 == [pv |-> 0, x1 |-> 0, x2 |-> 0, x3 |-> 0, be |-> 0, ga |-> 0, use |-> <<>>]
\* coordinates of all variables; with several variables every kind but "curve" moves shared positions alike
CrdOf(bm, k, t) == [v \in 1..Len(bm) |-> Coords(bm[v], IF Len(bm) > 1 /\ k \in {"curve", "extr"} THEN (IF IsSimplex(bm[v].et) THEN "shear8" ELSE "extr") ELSE k, t)]
Rolled(p) == [k \in 1..Len(p) |-> p[(k % Len(p)) + 1]]
NDofOf(pr) == SumSeq([v \in 1..Len(pr.meshes) |-> Len(pr.meshes[v].pts) * pr.vecs[v]])
\* A: [f, fam, nv, n, kind, vmax, ns, mild, mix (variables may have different elements of the family)]
Problem(s, A) ==
  LET fam == A.fam d == Dim(fam[1]) base == Base(fam[1]) nv == A.nv
      fr == Frames(base, A.n, s, TRUE)
      bm == TLCEval([v \in 1..nv |-> LET et == IF A.mix THEN PickS(s, 20 + v, fam) ELSE fam[1] IN Build(et, fr, s + v)])
      crd == CrdOf(bm, A.kind, s)
      ms == TLCEval([v \in 1..nv |-> MeshRec(bm[v], crd[v])])
      den == DenOf(A.kind)
      vecs == TLCEval([v \in 1..nv |-> 1 + Pick(s, 30 + v, A.vmax)])
      \* single-variable problems may use the map-style kernels; all may use universal kernels
      mode == IF nv = 1 THEN PickS(s, 8, << <<"tensor","mass">>, <<"tensor">>, <<"mass">>, <<"tensor","mass","universal">>, <<"universal">>, <<"tensor","universal">> >>) ELSE <<"universal">>
      modeM == IF A.mild /\ mode = <<"mass">> THEN <<"tensor", "mass">> ELSE mode
      smode == IF nv = 1 THEN PickS(s, 9, << <<"maps">>, <<"universal">>, <<"maps","universal">> >>) ELSE <<"universal">>
      has(x) == x \in SeqToSet(modeM)
      uni == has("universal") T == has("tensor") \/ uni M == has("mass") \/ uni
      z(c, x) == IF c THEN x ELSE 0
      co(v) == IF A.mild
               THEN [a |-> PickR(s, 100 + v, 24, 32), b |-> PickR(s, 110 + v, -1, 1), g |-> PickR(s, 120 + v, -2, 2), c |-> 0, d |-> 0,
                     e |-> z(M, PickR(s, 150 + v, 1, 3)), h |-> z(uni, PickR(s, 160 + v, -1, 1)), m |-> z(uni, PickR(s, 170 + v, -1, 1))]
               ELSE [a |-> z(T, PickR(s, 100 + v, 2, 6)), b |-> z(T, PickR(s, 110 + v, -2, 2)), g |-> z(T, PickR(s, 120 + v, -3, 3)), c |-> z(M, PickR(s, 130 + v, -2, 2)),
                     d |-> z(M, PickR(s, 140 + v, -1, 2)), e |-> z(M, PickR(s, 150 + v, 1, 3)), h |-> z(uni, PickR(s, 160 + v, -2, 2)), m |-> z(uni, PickR(s, 170 + v, -2, 2))]
      so(t, v) == [p |-> IF A.mild THEN 0 ELSE PickR(s, 200 + 10 * t + v, -2, 3), q |-> PickR(s, 230 + 10 * t + v, -2, 2),
                   r |-> IF "universal" \in SeqToSet(smode) THEN (IF A.mild THEN PickR(s, 260 + 10 * t + v, 0, 1) ELSE PickR(s, 260 + 10 * t + v, -2, 2)) ELSE 0]
      gdir == IF nv > 1 THEN [v \in 1..nv |-> [j \in 1..Len(ms[v].pts) |-> Rolled(ms[v].pts[j])]]
              ELSE [v \in 1..1 |-> [j \in 1..Len(ms[1].pts) |-> [k \in 1..d |-> PickR(s + 3, 5 * j + k, -1, 1)]]]
  IN [dim |-> d, meshes |-> ms, vecs |-> vecs, den |-> den, mode |-> modeM, smode |-> smode, rule |-> "none",
      order |-> IF A.f = 5 THEN 3 ELSE IF nv = 1 /\ A.f # 4 THEN PickS(s, 12, <<1, 2, 3>>) ELSE 2,
      wide |-> Pick(s, 15, 2) = 0,           \* parameters as one array with a trailing axis, or two scalar ones
      single |-> nv = 1 /\ Pick(s, 14, 2) = 0,
      co |-> [v \in 1..nv |-> co(v)], so |-> [t \in 1..A.ns |-> [v \in 1..nv |-> so(t, v)]],
      sets |-> [t \in 1..A.ns |-> [RandPred(ms[1].pts, s + 301 * t) EXCEPT !.conn = "or"]],
      bcs |-> [v \in 1..nv |-> <<>>], P |-> <<>>, gdir |-> gdir]
\* orders at which the element's stiffness has full rank
SafeOrder(et, s) == CASE et \in {"TRI3", "TET4"} -> PickS(s, 12, <<1, 2, 3>>) [] et \in {"QUAD8", "HEX20"} -> 4 [] et = "HEX27" -> 4 [] OTHER -> 2
\* random conditions (any), and conditions that fix something of every component with small values
AnyConds(pr, v, n, t) == [i \in 1..n |-> RandCond(pr.meshes[v].pts, pr.vecs[v], t + 97 * i + 13 * v)]
EqPred(pts, t) == LET p == RandPred(pts, t) IN [p EXCEPT !.conn = "or", !.atoms = [i \in 1..1 |-> [p.atoms[1] EXCEPT !.op = "eq"]],
                                                  !.idx = SetToSeqSorted({j \in SeqToSet(p.idx) : j % 3 = 0})]
SmallVal(pr, t) == [a |-> [k \in 1..pr.dim |-> 0], c |-> PickR(t, 9, -pr.den, pr.den)]
MildConds(pr, v, t) == [i \in 1..(pr.vecs[v] + Pick(t, 3, 2)) |->
    [p |-> EqPred(pr.meshes[v].pts, t + 41 * i + 11 * v), vec |-> (i - 1) % pr.vecs[v], val |-> SmallVal(pr, t + 5 * i + v)]]
\* conditions that hold a third of the nodes or more, in every component
HoldPred(pts, t) == LET p == RandPred(pts, t) a == p.atoms[1].a d == Len(pts[1])
      vs == {SumSeq([k \in 1..d |-> a[k] * pts[j][k]]) : j \in 1..Len(pts)} lo == MinOf(vs) hi == MaxOf(vs) up == Pick(t, 77, 2) = 0
   IN [p EXCEPT !.conn = "or", !.atoms = << [a |-> a, op |-> IF up THEN "ge" ELSE "le", c |-> IF up THEN hi - (hi - lo) \div 3 ELSE lo + (hi - lo) \div 3] >>,
       !.idx = SetToSeqSorted({j \in SeqToSet(p.idx) : j % 5 = 0})]
TameConds(pr, v, t) == [i \in 1..(pr.vecs[v] + Pick(t, 3, 2)) |->
    [p |-> IF i <= pr.vecs[v] THEN HoldPred(pr.meshes[v].pts, t + 41 * i + 11 * v) ELSE EqPred(pr.meshes[v].pts, t + 43 * i + 11 * v),
     vec |-> (i - 1) % pr.vecs[v], val |-> SmallVal(pr, t + 5 * i + v)]]
\* as many constrained dofs as before, elsewhere: the nodes are shifted, the components rotated, or both
IdxPred(d, S) == [args |-> 2, conn |-> "or", atoms |-> << [a |-> [k \in 1..d |-> IF k = 1 THEN 1 ELSE 0], op |-> "eq", c |-> 99999] >>, idx |-> SetToSeqSorted(S)]
Twin(pr, v, conds, t) ==
  LET pts == pr.meshes[v].pts n == Len(pts) sh == 1 + Pick(t, 31, Max2(1, n - 1)) how == Pick(t, 32, IF pr.vecs[v] = 1 THEN 1 ELSE 3)
      moved(c) == [c EXCEPT !.p = IdxPred(pr.dim, {(j + sh) % n : j \in {i \in 0..(n - 1) : Holds(c.p, pts[i + 1], i)}})]
      turned(c) == [c EXCEPT !.vec = (@ + 1) % pr.vecs[v]]
  IN TLCEval([i \in 1..Len(conds) |-> CASE how = 0 -> moved(conds[i]) [] how = 1 -> turned(conds[i]) [] OTHER -> turned(moved(conds[i]))])
VecOf(n, t, m) == [i \in 1..n |-> PickR(t, i + 5, -m, m)]
NoLin == [kind |-> "unjudged", args |-> <<>>, ksp |-> "", pc |-> "", pre |-> TRUE]
NoOp == [form |-> "nested", lin |-> NoLin, slin |-> NoLin, alin |-> NoLin, nlin |-> [NoLin EXCEPT !.kind = "absent"], may |-> FALSE, bad |-> "", nkm |-> 1000,
         ctl |-> "", q |-> <<>>, dl |-> <<1, -1>>, psi |-> <<1, 0>>, late |-> <<1, 0>>, switch |-> 0, maxs |-> 0, ret |-> FALSE, cb |-> FALSE, rising |-> TRUE, ntol |-> <<100000, -11>>, nrel |-> <<1, -8>>,
         op |-> "", pb |-> 1, u |-> <<>>, dirs |-> <<>>, v |-> 0, conds |-> <<>>, prm |-> Prm0, pts |-> <<>>, P |-> <<>>,
         guess |-> <<>>, tol |-> <<100000, -11>>, rel |-> <<1, -8>>, ls |-> FALSE, omit |-> <<>>, script |-> <<>>, back |-> "custom",
         key |-> 1, w |-> <<>>, z |-> <<>>, ties |-> <<>>, full |-> TRUE, sopts |-> "default", aopts |-> "default"]
=============================================================================
