------------------------------- MODULE GeoGen ------------------------------
(* C02 scenarios: meshes of every element type, every kind of map, several   *)
(* quadrature requests, nodal fields, a moved copy of the nodes.             *)
EXTENDS GenBase, Grid
LOCAL INSTANCE SequencesExt
ETs == <<"TRI3", "TRI6", "QUAD4", "QUAD8", "TET4", "TET10", "HEX8", "HEX20", "HEX27">>
Kinds == <<"box", "shear", "extr", "curve">>
Quads(et) == LET t == CASE ~IsSimplex(et) -> << <<"none", -1>>, <<"none", 1>>, <<"gll", 3>>, <<"gauss_jacobi", 3>>, <<"gll", 2>> >>
                        [] Dim(et) = 3 -> << <<"none", -1>>, <<"none", 2>>, <<"xiao_gimbutas", 3>>, <<"gauss_jacobi", 4>>, <<"none", 0>> >>
                        [] OTHER -> << <<"none", -1>>, <<"none", 2>>, <<"none", 3>>, <<"gauss_jacobi", 4>>, <<"none", 0>> >>
             IN IF et = "HEX27" THEN Tail(t) \o << <<"none", 4>> >> ELSE t
Counts(et, s) == IF Dim(et) = 2 THEN PickS(s, 3, << <<2,2>>, <<3,1>>, <<2,3>> >>)
                 ELSE IF IsSimplex(et) THEN PickS(s, 3, << <<1,1,1>>, <<2,1,1>> >>) ELSE PickS(s, 3, << <<2,1,1>>, <<1,2,1>>, <<2,2,1>> >>)
Sc(e, kd, r) ==
  LET et == ETs[e] s == SEED * 97 + e * 1009 + kd * 211 + r * 31
      n == Counts(et, s)
      fr == Frames(Base(et), n, s, TRUE)
      m == Build(et, fr, s)
      p == Coords(m, Kinds[kd], s)
      mv == Coords(m, Kinds[((kd + r) % 4) + 1], s + 5)
      q == PickS(s, 77 + kd, Quads(et))
      nc == Len(fr)
      vec == 1 + Pick(s, 88, 3)
  IN [et |-> et, mesh |-> MeshRec(m, p), den |-> DenOf(Kinds[kd]), moved |-> mv, mden |-> DenOf(Kinds[((kd + r) % 4) + 1]), kind |-> Kinds[kd], n |-> n, rule |-> q[1], order |-> q[2],
      vec |-> vec, sol |-> [j \in 1..Len(p) |-> [k \in 1..vec |-> PickR(s + j, 300 + k, -5, 5)]],
      scells |-> SetToSeqSorted({Pick(s, 400 + i, nc) : i \in 1..2}),
      sfaces |-> [i \in 1..4 |-> <<Pick(s, 420 + i, nc), Pick(s, 440 + i, NF(et))>>],
      affdet |-> LET a == AffMat(Dim(et), s) IN IF Kinds[kd] = "box" THEN 1 ELSE
            IF Dim(et) = 2 THEN a[1][1] * a[2][2] - a[1][2] * a[2][1]
            ELSE a[1][1] * (a[2][2] * a[3][3] - a[2][3] * a[3][2]) - a[1][2] * (a[2][1] * a[3][3] - a[2][3] * a[3][1]) + a[1][3] * (a[2][1] * a[3][2] - a[2][2] * a[3][1]),
      cost |-> NN(et), grp |-> et]
Reps == IF Thorough THEN 1..6 ELSE 1..1
ASSUME Emit({Sc(e, kd, r) : e \in 1..9, kd \in 1..4, r \in Reps})
=============================================================================
