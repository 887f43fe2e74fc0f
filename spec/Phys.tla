-------------------------------- MODULE Phys -------------------------------
(* What a problem is: its residual, tangent and Dirichlet data as functions  *)
(* of what is installed in it.  The abstract state of one problem is         *)
(* [prm, be, bcs, P, gpts, cg, sg, sel, tab]: parameters, amplitude of the   *)
(* boundary values per variable, conditions, multipoint matrix, nodal        *)
(* positions in use, their geometry, the selected facets and the tables.     *)
EXTENDS Weak, Dirichlet
LOCAL INSTANCE SequencesExt
TolR(v) == 400 + Abs(v) \div 2000
Bad(obs, ex) == Len(obs) # Len(ex) \/ \E i \in 1..Len(ex) : ~Near(obs[i], ex[i], TolR(ex[i]))
U6(v) == TLCEval([i \in 1..Len(v) |-> v[i] * Q4])
PhysOf(pr, s0) == [meshes |-> pr.meshes, vecs |-> pr.vecs, co |-> pr.co, so |-> pr.so, prm |-> s0.prm, sel |-> s0.sel]
FlagsOf(pr, s) == Flags(pr.sets[s], pr.meshes[1].pts)
SelOK(pr, e) == Len(e.sel) = Len(pr.sets) /\ \A s \in 1..Len(pr.sets) :
    LET b == e.sel[s] ex == Selection(pr.meshes[1].cells, e.tab[1].fv, FlagsOf(pr, s))
    IN {<<b[i][1], b[i][2]>> : i \in 1..Len(b)} = ex /\ Len(b) = Cardinality(ex)
Mask(D, r, x) == [i \in 1..Len(D) |-> IF D[i] = <<>> THEN r[i] ELSE x[i]]
\* --- installation
Fresh(pr) == [prm |-> Prm0, be |-> [v \in 1..Len(pr.meshes) |-> 0], bcs |-> pr.bcs, P |-> pr.P, gpts |-> [v \in 1..Len(pr.meshes) |-> pr.meshes[v].pts],
              gden |-> pr.den, cg |-> <<>>, sg |-> <<>>, sel |-> <<>>, tab |-> <<>>]
Geometry(pr, s0, gpts, gden) ==
   LET ms == TLCEval([v \in 1..Len(pr.meshes) |-> [pr.meshes[v] EXCEPT !.pts = gpts[v]]])
   IN [s0 EXCEPT !.gpts = gpts, !.gden = gden, !.cg = CellGeo(ms, gden, s0.tab), !.sg = SurfGeo(ms, gden, s0.tab, s0.sel)]
Setup(pr, s0, e) == TLCEval(Geometry(pr, [s0 EXCEPT !.sel = e.sel, !.tab = e.tab], s0.gpts, s0.gden))
HasKey(prm, k) == k \in SeqToSet(prm.use)
Moved(pr, ga) == [v \in 1..Len(pr.meshes) |-> [j \in 1..Len(pr.meshes[v].pts) |-> [k \in 1..pr.dim |-> 8 * pr.meshes[v].pts[j][k] + ga * pr.gdir[v][j][k]]]]
InstallNoGeo(pr, s0, prm) == [s0 EXCEPT !.prm = prm, !.be = IF HasKey(prm, "beta") THEN [v \in 1..Len(pr.meshes) |-> prm.be] ELSE @]
Install(pr, s0, prm) ==
   LET s1 == InstallNoGeo(pr, s0, prm) IN TLCEval(IF HasKey(prm, "geo") THEN Geometry(pr, s1, Moved(pr, prm.ga), 8 * pr.den) ELSE s1)
InstallBC(s0, v, conds) == [s0 EXCEPT !.bcs[v] = conds, !.be[v] = 0]
\* --- residual and tangent with the Dirichlet rows replaced, reduced by P when there is one
DofsOf(pr, s0) == TLCEval(Concat([v \in 1..Len(pr.meshes) |->
     LET D == VarDofs(s0.bcs[v], pr.meshes[v].pts, pr.vecs[v])
     IN [i \in 1..Len(D) |-> IF D[i] = <<>> THEN <<>> ELSE << D[i][1] * (S6 \div pr.den) + s0.be[v] * ((D[i][1] * (S6 \div pr.den)) \div 4) >>]]))
\* P: for every full dof a sequence of <<reduced index, quarters>>
Lift(P, x) == IF P = <<>> THEN x ELSE TLCEval([i \in 1..Len(P) |-> SumSeq([k \in 1..Len(P[i]) |-> (P[i][k][2] * x[P[i][k][1]]) \div 4])])
NRed(P) == MaxOf(UNION {{P[i][k][1] : k \in 1..Len(P[i])} : i \in 1..Len(P)} \cup {0})
Pull(P, r) == IF P = <<>> THEN r ELSE
    LET items == TLCEval(FlattenSeq([i \in 1..Len(P) |-> [k \in 1..Len(P[i]) |-> <<P[i][k][1], (P[i][k][2] * r[i]) \div 4>>]]))
    IN TLCEval(Scatter([j \in 1..NRed(P) |-> 0], items, 1))
\* of a full state
Plain(pr, s0, u) == Residual(PhysOf(pr, s0), s0.cg, s0.sg, u)
FullRes(pr, s0, D, u) == TLCEval(ApplyBC(D, Plain(pr, s0, u), u, 1))
FullTan(pr, s0, D, u, dv) == TLCEval(Mask(D, Tangent(PhysOf(pr, s0), s0.cg, s0.sg, u, dv), dv))
\* of a reduced state
RedRes(pr, s0, D, x) == Pull(s0.P, FullRes(pr, s0, D, Lift(s0.P, x)))
RedTan(pr, s0, D, x, dx) == Pull(s0.P, FullTan(pr, s0, D, Lift(s0.P, x), Lift(s0.P, dx)))
NDofs(pr) == NDof(pr.meshes, pr.vecs)
NUnknowns(pr, s0) == IF s0.P = <<>> THEN NDofs(pr) ELSE NRed(s0.P)
\* the Euclidean norm, for values below two thousand
MaxAbs(r) == MaxOf({Abs(r[i]) : i \in 1..Len(r)} \cup {0})
NormFx(r) == LET m == MaxAbs(r) k == IF m < 8 * S6 THEN 1 ELSE IF m < 32 * S6 THEN 4 ELSE IF m < 128 * S6 THEN 16 ELSE IF m < 512 * S6 THEN 64 ELSE 256
             IN k * FSqrt(SumSeq([i \in 1..Len(r) |-> FMul(r[i] \div k, r[i] \div k)]))
=============================================================================
