-------------------------------- MODULE Topo -------------------------------
(* Combinatorics of the nine element types in the mesh-file (VTK) ordering:  *)
(* reference node coordinates in half units (0,1,2), facets as vertex sets.  *)
EXTENDS Integers, Sequences, FiniteSets, TLC

Types == {"TRI3", "TRI6", "QUAD4", "QUAD8", "TET4", "TET10", "HEX8", "HEX20", "HEX27"}
Dim(et) == IF et \in {"TRI3", "TRI6", "QUAD4", "QUAD8"} THEN 2 ELSE 3
IsSimplex(et) == et \in {"TRI3", "TRI6", "TET4", "TET10"}
Quadratic(et) == et \in {"TRI6", "QUAD8", "TET10", "HEX20", "HEX27"}
Serendip(et) == et \in {"QUAD8", "HEX20"}
Base(et) == CASE et \in {"TRI3", "TRI6"} -> "TRI3" [] et \in {"QUAD4", "QUAD8"} -> "QUAD4"
              [] et \in {"TET4", "TET10"} -> "TET4" [] OTHER -> "HEX8"

TriV == << <<0,0>>, <<2,0>>, <<0,2>> >>
QuadV == << <<0,0>>, <<2,0>>, <<2,2>>, <<0,2>> >>
TetV == << <<0,0,0>>, <<2,0,0>>, <<0,2,0>>, <<0,0,2>> >>
HexV == << <<0,0,0>>, <<2,0,0>>, <<2,2,0>>, <<0,2,0>>, <<0,0,2>>, <<2,0,2>>, <<2,2,2>>, <<0,2,2>> >>
\* edges between (1-based) vertices, in VTK midside order
TriE == << <<1,2>>, <<2,3>>, <<3,1>> >>
QuadE == << <<1,2>>, <<2,3>>, <<3,4>>, <<4,1>> >>
TetE == << <<1,2>>, <<2,3>>, <<3,1>>, <<1,4>>, <<2,4>>, <<3,4>> >>
HexE == << <<1,2>>, <<2,3>>, <<3,4>>, <<4,1>>, <<5,6>>, <<6,7>>, <<7,8>>, <<8,5>>, <<1,5>>, <<2,6>>, <<3,7>>, <<4,8>> >>
Mids(V, E) == [k \in 1..Len(E) |-> [d \in 1..Len(V[1]) |-> (V[E[k][1]][d] + V[E[k][2]][d]) \div 2]]
Hex27X == << <<0,1,1>>, <<2,1,1>>, <<1,0,1>>, <<1,2,1>>, <<1,1,0>>, <<1,1,2>>, <<1,1,1>> >>
VertsOf(et) == CASE Base(et) = "TRI3" -> TriV [] Base(et) = "QUAD4" -> QuadV [] Base(et) = "TET4" -> TetV [] OTHER -> HexV
EdgesOf(et) == CASE Base(et) = "TRI3" -> TriE [] Base(et) = "QUAD4" -> QuadE [] Base(et) = "TET4" -> TetE [] OTHER -> HexE
NodeTab == TLCEval([et \in Types |->
  CASE ~Quadratic(et) -> VertsOf(et)
    [] et = "HEX27" -> HexV \o Mids(HexV, HexE) \o Hex27X
    [] OTHER -> VertsOf(et) \o Mids(VertsOf(et), EdgesOf(et))])
NodeXi(et) == NodeTab[et]
NN(et) == Len(NodeTab[et])
NV(et) == Len(VertsOf(et))
\* facets as sets of 1-based local vertices
FacetTab == TLCEval([et \in Types |->
  CASE Base(et) = "TRI3" -> {{1,2}, {2,3}, {1,3}}
    [] Base(et) = "QUAD4" -> {{1,2}, {2,3}, {3,4}, {4,1}}
    [] Base(et) = "TET4" -> {{1,2,3}, {1,2,4}, {1,3,4}, {2,3,4}}
    [] OTHER -> {{1,2,3,4}, {5,6,7,8}, {1,2,5,6}, {2,3,6,7}, {3,4,7,8}, {1,4,5,8}}])
Facets(et) == FacetTab[et]
NF(et) == Cardinality(FacetTab[et])
FacetVerts(et) == IF Dim(et) = 2 THEN 2 ELSE IF IsSimplex(et) THEN 3 ELSE 4
\* does local (higher order) node a lie on facet F (set of vertices)?  It does iff it is in the span:
\* for every coordinate functional vanishing on F; equivalently its half-unit coordinates agree with the facet plane.
OnFacet(et, F, a) ==
  LET X == NodeXi(et)[a] Vs == VertsOf(et) IN
  IF IsSimplex(et)
  THEN \* barycentric coordinates of the vertices not in F vanish
       LET bary(v) == IF v = 1 THEN 2 - (X[1] + X[2] + (IF Dim(et) = 3 THEN X[3] ELSE 0)) ELSE X[v - 1]
       IN \A v \in 1..NV(et) : v \in F \/ bary(v) = 0
  ELSE \A d \in 1..Dim(et) : (\A v, w \in F : Vs[v][d] = Vs[w][d]) => X[d] = Vs[CHOOSE v \in F : TRUE][d]
\* self-checks of this table (evaluated by the model configurations)
TopoOK == \A et \in Types :
   /\ \A F \in Facets(et) : Cardinality(F) = FacetVerts(et)
   /\ \A F, G \in Facets(et) : F # G => Cardinality(F \cap G) < FacetVerts(et)
   /\ \A v \in 1..NV(et) : Cardinality({F \in Facets(et) : v \in F}) = Dim(et)
   /\ Cardinality({NodeXi(et)[a] : a \in 1..NN(et)}) = NN(et)
   /\ \A F \in Facets(et), v \in 1..NV(et) : OnFacet(et, F, v) <=> v \in F
=============================================================================
