-------------------------------- MODULE Weak -------------------------------
(* The weak form of a family of quadratic physics and its assembly, over     *)
(* fixed-point numbers.  Variable i couples to the next variable j:          *)
(*  flux_i[k][l] = th1 a G[k][l] + b G[k][l] G[k][l+1] + g G[k+1][l] + h G[k][l] Uj[1]   *)
(*  src_i[k]     = c U[k] U[k+1] + d x[1] U[k] + e th2 + m Gj[1][1]           *)
(*  surf_i[k]    = p U[k]^2 + q x[dim] + phi + r Uj[1]                        *)
(* (indices cyclic).  Coefficients are quarters.                             *)
EXTENDS GeoFix
LOCAL INSTANCE SequencesExt
Q4 == 250000
Cf(x) == x * Q4
\* parameters of the quadrature points, as functions of cell / facet / point (all from 0)
\* prm: [pv, x1, x2, x3, be, ga]: a base pattern, three amplitudes of fixed directions,
\* and the amplitudes of the boundary values and of the nodal displacement (used elsewhere)
Q8 == 125000
Th1(p, c, q) == Q4 * (((2 * c + q + p.pv) % 5) + 1) + p.x1 * Q8 * ((c + 2 * q) % 3)
Th2(p, c, q) == Q4 * (((c + 3 * q + 2 * p.pv) % 7) - 3) + p.x2 * Q8 * (((2 * c + q) % 3) - 1)
Phi(p, s, c, f, q) == Q4 * (((3 * c + 5 * f + 2 * q + s + p.pv) % 7) - 3) + p.x3 * Q8 * (((c + f + q + s) % 3) - 1)
Prm0 == [pv |-> 0, x1 |-> 0, x2 |-> 0, x3 |-> 0, be |-> 0, ga |-> 0, use |-> <<>>]
Nx(k, n) == (k % n) + 1

CoordsOf(mesh, den, c) == TLCEval([a \in 1..Len(mesh.cells[c]) |-> [k \in 1..Len(mesh.pts[1]) |-> LET n == mesh.pts[mesh.cells[c][a] + 1][k] IN (n \div den) * S6 + ((n % den) * S6) \div den]])
\* geometry of one cell of one variable at the points whose shape values are Ns, weights w
PointGeo(et, X, N0, w) == LET xi == RefPoint(et, N0) N == ShapeAt(et, xi) G == RefGradAt(et, xi) J == JacAt(X, G)
   IN [N |-> N, PG |-> PhysGrad(G, FInv(J)), W |-> FMul(FDet(J), w), x |-> TLCEval(Interp(N, X))]
FacetGeo(et, X, N0, w, fv) == LET xi == RefPoint(et, N0) N == ShapeAt(et, xi) G == RefGradAt(et, xi) J == JacAt(X, G)
   IN [N |-> N, PG |-> PhysGrad(G, FInv(J)), W |-> FMul(Surf(et, fv, J), w), x |-> TLCEval(Interp(N, X))]
\* tab[v]: [vals, w, fvals, fw, fv] as delivered for variable v
CellGeo(meshes, den, tab) == TLCEval([c \in 1..Len(meshes[1].cells) |-> [v \in 1..Len(meshes) |->
     LET X == CoordsOf(meshes[v], den, c) IN [q \in 1..Len(tab[v].w) |-> PointGeo(meshes[v].et, X, tab[v].vals[q], tab[v].w[q])]]])
\* sel[s]: the selected <<cell, facet>> pairs (from 0) of boundary set s, in delivered order
SurfGeo(meshes, den, tab, sel) == TLCEval([s \in 1..Len(sel) |-> [i \in 1..Len(sel[s]) |-> [v \in 1..Len(meshes) |->
     LET X == CoordsOf(meshes[v], den, sel[s][i][1] + 1) f == sel[s][i][2] + 1 IN
     [q \in 1..Len(tab[v].fw[f]) |-> FacetGeo(meshes[v].et, X, tab[v].fvals[f][q], tab[v].fw[f][q], tab[v].fv[f])]]]])
Offset(meshes, vecs, v) == SumSeq([i \in 1..(v - 1) |-> Len(meshes[i].pts) * vecs[i]])
NDof(meshes, vecs) == Offset(meshes, vecs, Len(meshes) + 1)
\* nodal values of variable v in cell c (from 1) from the flat state
Local(meshes, vecs, u, v, c) == LET off == Offset(meshes, vecs, v) cell == meshes[v].cells[c] IN
   TLCEval([a \in 1..Len(cell) |-> [k \in 1..vecs[v] |-> u[off + cell[a] * vecs[v] + k]]])
\* local residual of variable v: [a][k]
CellRes(P, U, geo, c, v) ==   \* U[v] nodal values per variable; geo[v][q]
  LET nv == Len(U) j == Nx(v, nv) vec == P.vecs[v] d == Len(geo[v][1].x) co == P.co[v]
      pt(q) == LET g == geo[v][q] Gu == TLCEval(InterpGrad(g.PG, U[v])) Uu == TLCEval(Interp(g.N, U[v]))
                   gj == geo[j][q] Uj == IF nv = 1 THEN Uu[1] ELSE Interp(gj.N, U[j])[1]
                   Gj == IF nv = 1 THEN Gu[1][1] ELSE InterpGrad(gj.PG, U[j])[1][1]
                   t1 == Th1(P.prm, c - 1, q - 1) t2 == Th2(P.prm, c - 1, q - 1)
                   flux == TLCEval([k \in 1..vec |-> [l \in 1..d |-> FMul(g.W,
                        FMul(FMul(t1, Cf(co.a)), Gu[k][l]) + FMul(Cf(co.b), FMul(Gu[k][l], Gu[k][Nx(l, d)])) + FMul(Cf(co.g), Gu[Nx(k, vec)][l])
                        + FMul(Cf(co.h), FMul(Gu[k][l], Uj)))]])
                   src == TLCEval([k \in 1..vec |-> FMul(g.W,
                        FMul(Cf(co.c), FMul(Uu[k], Uu[Nx(k, vec)])) + FMul(Cf(co.d), FMul(g.x[1], Uu[k])) + FMul(Cf(co.e), t2) + FMul(Cf(co.m), Gj))])
               IN TLCEval([a \in 1..Len(g.N) |-> [k \in 1..vec |-> FMul(src[k], g.N[a]) + SumSeq([l \in 1..d |-> FMul(flux[k][l], g.PG[a][l])])]])
      pts == TLCEval([q \in 1..Len(geo[v]) |-> pt(q)])
  IN TLCEval([a \in 1..Len(U[v]) |-> [k \in 1..vec |-> SumSeq([q \in 1..Len(pts) |-> pts[q][a][k]])]])
FacetRes(P, U, geo, s, cf, v) ==
  LET nv == Len(U) j == Nx(v, nv) vec == P.vecs[v] d == Len(geo[v][1].x) co == P.so[s][v]
      pt(q) == LET g == geo[v][q] Uu == TLCEval(Interp(g.N, U[v])) Uj == IF nv = 1 THEN Uu[1] ELSE Interp(geo[j][q].N, U[j])[1]
               IN TLCEval([k \in 1..vec |-> FMul(g.W, FMul(Cf(co.p), FMul(Uu[k], Uu[k])) + FMul(Cf(co.q), g.x[d]) + Phi(P.prm, s - 1, cf[1], cf[2], q - 1) + FMul(Cf(co.r), Uj))])
      pts == TLCEval([q \in 1..Len(geo[v]) |-> pt(q)])
  IN TLCEval([a \in 1..Len(U[v]) |-> [k \in 1..vec |-> SumSeq([q \in 1..Len(pts) |-> FMul(pts[q][k], geo[v][q].N[a])])]])
\* P: [meshes, vecs, co, so, prm, sel]; cg, sg geometry; u flat fixed-point state; result flat
RECURSIVE Scatter(_, _, _)
Scatter(acc, items, i) == IF i > Len(items) THEN acc ELSE Scatter([acc EXCEPT ![items[i][1]] = @ + items[i][2]], items, i + 1)
Residual(P, cg, sg, u) ==
  LET nv == Len(P.meshes) nc == Len(P.meshes[1].cells)
      Us == TLCEval([c \in 1..nc |-> [v \in 1..nv |-> Local(P.meshes, P.vecs, u, v, c)]])
      put(v, c, r) == LET off == Offset(P.meshes, P.vecs, v) cell == P.meshes[v].cells[c] vec == P.vecs[v]
                      IN [i \in 1..(Len(cell) * vec) |-> LET a == ((i - 1) \div vec) + 1 k == ((i - 1) % vec) + 1 IN <<off + cell[a] * vec + k, r[a][k]>>]
      vol == FlattenSeq([i \in 1..(nc * nv) |-> LET c == ((i - 1) \div nv) + 1 v == ((i - 1) % nv) + 1 IN put(v, c, CellRes(P, Us[c], cg[c], c, v))])
      sur == FlattenSeq([s \in 1..Len(P.sel) |-> FlattenSeq([i \in 1..(Len(P.sel[s]) * nv) |->
                 LET f == ((i - 1) \div nv) + 1 v == ((i - 1) % nv) + 1 c == P.sel[s][f][1] + 1
                 IN put(v, c, FacetRes(P, Us[c], sg[s][f], s, P.sel[s][f], v))])])
  IN TLCEval(Scatter([i \in 1..NDof(P.meshes, P.vecs) |-> 0], TLCEval(vol \o sur), 1))
\* the residual is quadratic in the state, so the central difference is its derivative
Tangent(P, cg, sg, u, dv) ==
  LET n == Len(u) rp == Residual(P, cg, sg, [i \in 1..n |-> u[i] + dv[i]]) rm == Residual(P, cg, sg, [i \in 1..n |-> u[i] - dv[i]])
  IN TLCEval([i \in 1..n |-> (rp[i] - rm[i]) \div 2])
=============================================================================
