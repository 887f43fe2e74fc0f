----------------------------- MODULE FaceSelMC -----------------------------
(* The selection as the code computes it (a loop over cells and local facets *)
(* that appends the pairs whose vertices all satisfy the predicate), for all *)
(* truth assignments on the nodes of two-cell meshes.                        *)
EXTENDS FaceSel, IOUtils
VARIABLES m, flags, pos, out
RECURSIVE Seqs(_)
Seqs(S) == IF S = {} THEN <<>> ELSE LET f == CHOOSE f \in S : TRUE IN <<SetToSeqSorted(f)>> \o Seqs(S \ {f})
MeshOf(e) == LET fr == Frames(Base(e), IF Dim(e) = 2 THEN (IF IsSimplex(e) THEN <<1,1>> ELSE <<2,1>>) ELSE IF IsSimplex(e) THEN <<1,1,1>> ELSE <<2,1,1>>, 5, TRUE)
                 b == Build(e, SubSeq(fr, 1, 2), 3)
             IN [et |-> e, cells |-> Zero(b.cells), nn |-> Len(b.pos), fv |-> Seqs(Facets(e)), verts |-> UNION {{b.cells[c][v] : v \in 1..NV(e)} : c \in 1..2}]
Init == m \in {MeshOf(e) : e \in {"TRI3", "TRI6", "QUAD4", "TET4", "HEX8"} \cup (IF "TIER" \in DOMAIN IOEnv /\ IOEnv.TIER = "thorough" THEN {"QUAD8", "TET10"} ELSE {})}
        /\ flags = [j \in 1..m.nn |-> FALSE] /\ pos = <<0, 0>> /\ out = <<>>
\* the predicate is arbitrary: chosen before the loop starts, one node at a time
Raise == pos = <<0, 0>> /\ \E j \in 1..m.nn : ~flags[j] /\ (\A k \in j..m.nn : ~flags[k]) /\ flags' = [flags EXCEPT ![j] = TRUE] /\ UNCHANGED <<m, pos, out>>
Visit ==
   /\ pos = <<0, 0>>
   /\ LET RECURSIVE Loop(_, _, _)
          Loop(c, f, acc) == IF c = Len(m.cells) THEN acc
             ELSE LET ok == \A k \in 1..Len(m.fv[f + 1]) : flags[m.cells[c + 1][m.fv[f + 1][k]] + 1]
                      acc2 == IF ok THEN Append(acc, <<c, f>>) ELSE acc
                  IN IF f + 1 < Len(m.fv) THEN Loop(c, f + 1, acc2) ELSE Loop(c + 1, 0, acc2)
      IN out' = Loop(0, 0, <<>>)
   /\ pos' = <<1, 0>> /\ UNCHANGED <<m, flags>>
Next == Raise \/ Visit
Done == pos[1] = 1
Exact == Done => SeqToSet(out) = Selection(m.cells, m.fv, flags) /\ Cardinality(SeqToSet(out)) = Len(out)
NodesOf(c, f) == {m.cells[c + 1][m.fv[f + 1][k]] : k \in 1..Len(m.fv[f + 1])}
\* an interior facet is selected from both sides or from neither
Matched == Done => \A f, g \in 0..(Len(m.fv) - 1) : NodesOf(0, f) = NodesOf(1, g) => (<<0, f>> \in SeqToSet(out) <=> <<1, g>> \in SeqToSet(out))
\* mid-side nodes never matter
VertsOnly == Done => SeqToSet(out) = Selection(m.cells, m.fv, [j \in 1..m.nn |-> flags[j] /\ j \in m.verts])
TableInv == TableOK(m.et, m.fv)
=============================================================================
