------------------------------ MODULE FaceSel ------------------------------
(* Surface selection.  A predicate is a connective of integer half-space     *)
(* atoms on the point and a list of node indices; the selection of a mesh is *)
(* the set of (cell, facet) pairs all of whose facet vertices satisfy it.    *)
EXTENDS Grid
AtomHolds(at, x) == LET s == SumSeq([k \in 1..Len(x) |-> at.a[k] * x[k]])
                    IN CASE at.op = "eq" -> s = at.c [] at.op = "le" -> s <= at.c [] OTHER -> s >= at.c
\* pred: [atoms, conn, idx (node indices from 0; used when args = 2), args]
PointPart(p, x) == IF p.conn = "and" THEN \A i \in 1..Len(p.atoms) : AtomHolds(p.atoms[i], x)
                   ELSE \E i \in 1..Len(p.atoms) : AtomHolds(p.atoms[i], x)
Holds(p, x, j) == IF p.args = 1 THEN PointPart(p, x)
                  ELSE IF p.conn = "and" THEN PointPart(p, x) /\ j \in SeqToSet(p.idx) ELSE PointPart(p, x) \/ j \in SeqToSet(p.idx)
Flags(p, pts) == TLCEval([j \in 1..Len(pts) |-> Holds(p, pts[j], j - 1)])
\* fv: the local facet table, as sequences of 1-based local vertices; cells: 0-based node ids
Selection(cells, fv, flags) == {<<c, f>> \in (0..(Len(cells) - 1)) \X (0..(Len(fv) - 1)) :
    \A k \in 1..Len(fv[f + 1]) : flags[cells[c + 1][fv[f + 1][k]] + 1]}
TableOK(et, fv) == Len(fv) = NF(et) /\ {SeqToSet(fv[f]) : f \in 1..Len(fv)} = Facets(et) /\ \A f \in 1..Len(fv) : Len(fv[f]) = FacetVerts(et)
\* --- random predicates
RandAtom(pts, s) == LET d == Len(pts[1]) x == pts[1 + Pick(s, 1, Len(pts))]
      a == PickS(s, 2, IF d = 2 THEN << <<1,0>>, <<0,1>>, <<1,1>>, <<1,-1>>, <<2,1>> >> ELSE << <<1,0,0>>, <<0,1,0>>, <<0,0,1>>, <<1,1,0>>, <<1,0,-1>>, <<1,1,1>> >>)
   IN [a |-> a, op |-> PickS(s, 3, <<"eq", "eq", "le", "ge">>), c |-> SumSeq([k \in 1..d |-> a[k] * x[k]])]
RandPred(pts, s) == LET two == Pick(s, 9, 3) = 0 n == 1 + Pick(s, 10, 2) IN
   [atoms |-> [i \in 1..n |-> RandAtom(pts, s + 37 * i)], conn |-> PickS(s, 11, <<"and", "or", "or">>), args |-> IF two THEN 2 ELSE 1,
    idx |-> IF two THEN SetToSeqSorted({j \in 0..(Len(pts) - 1) : Rnd(s, 40 + j) % 3 # 0}) ELSE <<>>]
=============================================================================
