------------------------------ MODULE Tiling ------------------------------
(* What it means for a mesh to tile a domain: nodes used once, straight and *)
(* positively oriented cells in the library's node ordering, facets shared  *)
(* by two cells or lying on the boundary, and the right total measure.      *)
(* pts are integer lattice points, cells 0-based node tuples.               *)
EXTENDS Grid
CellName(et) == CASE et = "TRI3" -> "triangle" [] et = "TRI6" -> "triangle6" [] et = "QUAD4" -> "quad" [] et = "QUAD8" -> "quad8"
   [] et = "TET4" -> "tetra" [] et = "TET10" -> "tetra10" [] et = "HEX8" -> "hexahedron" [] et = "HEX20" -> "hexahedron20" [] et = "HEX27" -> "hexahedron27"

Det2(a, b) == a[1] * b[2] - a[2] * b[1]
Det3(a, b, c) == a[1] * (b[2] * c[3] - b[3] * c[2]) - a[2] * (b[1] * c[3] - b[3] * c[1]) + a[3] * (b[1] * c[2] - b[2] * c[1])
DetOf(es) == IF Len(es) = 2 THEN Det2(es[1], es[2]) ELSE Det3(es[1], es[2], es[3])
\* the frame of a cell: its first vertex and the edges to the neighbours of that vertex along the reference axes
AxisVert(et) == CASE Base(et) = "TRI3" -> <<2, 3>> [] Base(et) = "QUAD4" -> <<2, 4>> [] Base(et) = "TET4" -> <<2, 3, 4>> [] OTHER -> <<2, 4, 5>>
EdgeVecs(et, X) == [k \in 1..Dim(et) |-> VSub(X[AxisVert(et)[k]], X[1])]
\* the cell is the affine image of the reference cell, every node in its place
Straight(et, X) == LET E == EdgeVecs(et, X) IN
   \A a \in 1..NN(et) : \A d \in 1..Dim(et) :
      2 * (X[a][d] - X[1][d]) = SumSeq([k \in 1..Dim(et) |-> NodeXi(et)[a][k] * E[k][d]])
\* d! times the volume for simplices, the volume for tensor cells
Meas(et, X) == DetOf(EdgeVecs(et, X))
Factor(et) == IF ~IsSimplex(et) THEN 1 ELSE IF Dim(et) = 2 THEN 2 ELSE 6

Corner(cells, nv, c, F) == {cells[c][v] : v \in F}
\* cells around every node
Around(cells, np, nv) == LET m == Len(cells) IN
   TLCEval([j \in 0..(np - 1) |-> {c \in 1..m : \E v \in 1..nv : cells[c][v] = j}])
\* all cells that have this node set as a facet
Sharing(et, cells, around, S) ==
   {c \in {x \in around[CHOOSE j \in S : TRUE] : \A j \in S : x \in around[j]} : \E G \in Facets(et) : Corner(cells, NV(et), c, G) = S}
\* onBoundary(S): the facet with node set S lies on the domain boundary
FacetFails(et, cells, np, onBoundary(_)) ==
   LET ar == Around(cells, np, NV(et)) IN
   UNION {UNION {LET S == Corner(cells, NV(et), c, F) n == Cardinality(Sharing(et, cells, ar, S)) IN
      (IF n > 2 THEN {"facet_shared_by_more_than_two"} ELSE {})
      \cup (IF n = 1 /\ ~onBoundary(S) THEN {"unmatched_interior_facet"} ELSE {})
      \cup (IF n = 2 /\ onBoundary(S) THEN {"boundary_facet_shared"} ELSE {})
      : F \in Facets(et)} : c \in 1..Len(cells)}
NodeFails(pts, cells) ==
   (IF Cardinality(SeqToSet(pts)) # Len(pts) THEN {"duplicate_node"} ELSE {})
   \cup (IF 0..(Len(pts) - 1) \ UNION {SeqToSet(cells[c]) : c \in 1..Len(cells)} # {} THEN {"unused_node"} ELSE {})

\* an axis-aligned box [0, size] cut into n[k] layers of thickness h[k] in direction k
BoxFails(et, pts, cells, n, h) ==
   LET d == Dim(et) size == [k \in 1..d |-> n[k] * h[k]]
       onB(S) == \E k \in 1..d : \E v \in {0, size[k]} : \A j \in S : pts[j + 1][k] = v
       X(c) == [a \in 1..NN(et) |-> pts[cells[c][a] + 1]]
       tensor == ~IsSimplex(et)
       step(k) == IF Quadratic(et) THEN h[k] \div 2 ELSE h[k]
   IN IF \E c \in 1..Len(cells) : Len(cells[c]) # NN(et) \/ \E a \in 1..Len(cells[c]) : cells[c][a] \notin 0..(Len(pts) - 1) THEN {"malformed_cell"}
      ELSE IF \E j \in 1..Len(pts) : Len(pts[j]) # d THEN {"point_dimension"}
      ELSE NodeFails(pts, cells)
      \cup (IF \E j \in 1..Len(pts) : \E k \in 1..d : pts[j][k] \notin 0..size[k] THEN {"node_outside_domain"} ELSE {})
      \cup (IF \E j \in 1..Len(pts) : \E k \in 1..d : pts[j][k] % step(k) # 0 THEN {"divisions_uneven"} ELSE {})
      \cup (IF tensor /\ Len(cells) # (IF d = 2 THEN n[1] * n[2] ELSE n[1] * n[2] * n[3]) THEN {"cell_count"} ELSE {})
      \cup (IF tensor /\ \E c \in 1..Len(cells) : \E k \in 1..d : ~\E a, b \in 1..NV(et) : Abs(X(c)[a][k] - X(c)[b][k]) = h[k] THEN {"cell_size"} ELSE {})
      \cup (IF ~tensor /\ \E c \in 1..Len(cells) : \E k \in 1..d : \E a, b \in 1..NV(et) : Abs(X(c)[a][k] - X(c)[b][k]) > h[k] THEN {"cell_size"} ELSE {})
      \cup (IF \E k \in 1..d : {pts[j][k] : j \in 1..Len(pts)} # {i * step(k) : i \in 0..(size[k] \div step(k))} THEN {"division_missing"} ELSE {})
      \cup (IF \E c \in 1..Len(cells) : ~Straight(et, X(c)) THEN {"node_order"} ELSE {})
      \cup (IF \E c \in 1..Len(cells) : Meas(et, X(c)) <= 0 THEN {"cell_orientation"} ELSE {})
      \cup (IF SumSeq([c \in 1..Len(cells) |-> Meas(et, X(c))]) # Factor(et) * (IF d = 2 THEN size[1] * size[2] ELSE size[1] * size[2] * size[3]) THEN {"total_measure"} ELSE {})
      \cup FacetFails(et, cells, Len(pts), onB)

\* --- a cylinder of radius and height 10^4 units about the z axis: q cells along a quarter arc, m layers,
\*     an inner square with half side rho (10^4 units); coordinates rounded to the unit
NearC(a, b) == Abs(a - b) <= 3
Sq(p) == p[1] * p[1] + p[2] * p[2]
OnRim(p) == Abs(Sq(p) - 100000000) <= 80000
CylFails(pts, cells, q, m, rho) ==
   LET et == "HEX8"
       U == 10000
       X(c) == [a \in 1..8 |-> [k \in 1..3 |-> (pts[cells[c][a] + 1][k] + 20000) \div 50]]     \* coarse, for the signs
       onB(S) == (\A j \in S : NearC(pts[j + 1][3], 0)) \/ (\A j \in S : NearC(pts[j + 1][3], U)) \/ (\A j \in S : OnRim(pts[j + 1]))
       \* neighbours of each corner along the reference axes, and the sign of their triple product there
       nb(v) == [k \in 1..3 |-> CHOOSE w \in 1..8 : \A d \in 1..3 : (HexV[w][d] = HexV[v][d]) = (d # k)]
       sg(v) == LET s(k) == IF HexV[v][k] = 0 THEN 1 ELSE -1 IN s(1) * s(2) * s(3)
       det(c, v) == sg(v) * DetOf([k \in 1..3 |-> VSub(X(c)[nb(v)[k]], X(c)[v])])
       rim0 == {j \in 0..(Len(pts) - 1) : OnRim(pts[j + 1]) /\ NearC(pts[j + 1][3], 0)}
       chords == {Sq(VSub(pts[i + 1], pts[j + 1])) : i, j \in rim0} \ {0}
       \* squared distance to the nearest other rim node of each rim node
       near(j) == MinOf({Sq(VSub(pts[i + 1], pts[j + 1])) : i \in rim0 \ {j}})
   IN IF \E c \in 1..Len(cells) : Len(cells[c]) # 8 \/ \E a \in 1..Len(cells[c]) : cells[c][a] \notin 0..(Len(pts) - 1) THEN {"malformed_cell"}
      ELSE IF \E j \in 1..Len(pts) : Len(pts[j]) # 3 THEN {"point_dimension"}
      ELSE NodeFails(pts, cells)
      \cup (IF Len(cells) # 5 * q * q * m THEN {"cell_count"} ELSE {})
      \cup (IF \E j \in 1..Len(pts) : Sq(pts[j]) > 100080000 \/ pts[j][3] < -3 \/ pts[j][3] > U + 3 THEN {"node_outside_domain"} ELSE {})
      \cup (IF \E j \in 1..Len(pts) : ~\E i \in 0..m : NearC(pts[j][3] * m, U * i) \/ Abs(pts[j][3] * m - U * i) <= 3 * m THEN {"divisions_uneven"} ELSE {})
      \cup (IF \E i \in 0..m : ~\E j \in 1..Len(pts) : Abs(pts[j][3] * m - U * i) <= 3 * m THEN {"division_missing"} ELSE {})
      \cup (IF \E c \in 1..Len(cells) : \E v \in 1..8 : det(c, v) <= 0 THEN {"cell_orientation"} ELSE {})
      \cup (IF Cardinality(rim0) # 4 * q THEN {"rim_divisions"}
            ELSE IF \E j \in rim0 : Abs(near(j) - near(CHOOSE i \in rim0 : TRUE)) > near(j) \div 50 THEN {"rim_divisions"} ELSE {})
      \cup (IF \E a, b \in {-rho, rho} : ~\E j \in 1..Len(pts) : NearC(pts[j][1], a) /\ NearC(pts[j][2], b) THEN {"inner_square"} ELSE {})
      \cup FacetFails(et, cells, Len(pts), onB)
=============================================================================
