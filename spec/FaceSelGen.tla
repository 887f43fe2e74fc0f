----------------------------- MODULE FaceSelGen ----------------------------
(* C03 scenarios.                                                            *)
EXTENDS GenBase, FaceSel
ETs == <<"TRI3", "TRI6", "QUAD4", "QUAD8", "TET4", "TET10", "HEX8", "HEX20", "HEX27">>
Counts(et, s) == IF Dim(et) = 2 THEN PickS(s, 3, << <<2,2>>, <<3,2>>, <<5,1>> >>)
                 ELSE IF IsSimplex(et) THEN PickS(s, 3, << <<1,1,1>>, <<2,1,1>> >>) ELSE PickS(s, 3, << <<2,2,1>>, <<3,1,1>>, <<2,1,2>> >>)
Sc(e, r) ==
  LET et == ETs[e] s == SEED * 131 + e * 1013 + r * 77
      n == Counts(et, s)
      fr0 == Frames(Base(et), n, s, TRUE)
      fr == IF r % 2 = 0 THEN SubSeq(fr0, 1, Len(fr0) - 1 - Pick(s, 5, 2)) ELSE fr0     \* holes
      m == Build(et, fr, s)
      p == Coords(m, PickS(s, 6, <<"box", "shear", "box">>), s)
      all == [atoms |-> <<[a |-> [k \in 1..Dim(et) |-> 0], op |-> "eq", c |-> 0]>>, conn |-> "and", args |-> 1, idx |-> <<>>]
      none == [all EXCEPT !.atoms = <<[a |-> [k \in 1..Dim(et) |-> 0], op |-> "eq", c |-> 1]>>]
      np == IF r = 1 THEN 0 ELSE 1 + Pick(s, 7, 5)
  IN [et |-> et, mesh |-> MeshRec(m, p), den |-> 4, n |-> n,
      preds |-> [i \in 1..np |-> IF i = 3 THEN (IF r % 2 = 0 THEN all ELSE none) ELSE RandPred(p, s + 211 * i)],
      cost |-> 1, grp |-> et]
Reps == IF Thorough THEN 1..40 ELSE 1..5
ASSUME Emit({Sc(e, r) : e \in 1..9, r \in Reps})
=============================================================================
