---------------------------- MODULE DirichletGen ---------------------------
(* C04 scenarios: one to three variables, lists of conditions, a sequence of *)
(* operations and replacements.                                              *)
EXTENDS GenBase, Dirichlet
Families == << <<"TRI3", "TRI6">>, <<"QUAD4", "QUAD8">>, <<"TET4", "TET10">>, <<"HEX8", "HEX20", "HEX27">> >>
Counts(et, s) == IF Dim(et) = 2 THEN PickS(s, 3, << <<2,2>>, <<3,1>> >>) ELSE IF IsSimplex(et) THEN <<1,1,1>> ELSE PickS(s, 3, << <<2,1,1>>, <<1,1,1>> >>)
Ops == <<"assign", "ones", "zeros", "copy", "apply", "apply", "applyfn", "update">>
Sc(f, r) ==
  LET s == SEED * 173 + f * 1501 + r * 61
      fam == Families[f] base == Base(fam[1]) nv == 1 + (r % 3)
      n == Counts(fam[1], s)
      fr == Frames(base, n, s, TRUE)
      kind == PickS(s, 6, <<"box", "shear">>)
      ms == TLCEval([v \in 1..nv |-> LET et == PickS(s, 20 + v, fam) m == Build(et, fr, s + v) IN MeshRec(m, Coords(m, kind, s))])
      vecs == TLCEval([v \in 1..nv |-> 1 + Pick(s, 30 + v, 3)])
      Conds(v, t) == [i \in 1..Pick(s, 40 + 7 * t + v, 5) |-> RandCond(ms[v].pts, vecs[v], s + 97 * i + 13 * v + 1009 * t)]
      nd == SumSeq([v \in 1..nv |-> Len(ms[v].pts) * vecs[v]])
      Vec(t) == [i \in 1..nd |-> PickR(s + t, i + 5, -40, 40)]
      nops == 9
      OpN(t) == LET o == IF t = 4 THEN "update" ELSE IF t <= 3 THEN Ops[<<1, 5, 4>>[t]] ELSE PickS(s, 60 + t, Ops) IN
                CASE o = "update" -> [op |-> o, v |-> Pick(s, 80 + t, nv), conds |-> Conds(1 + Pick(s, 80 + t, nv), t), u |-> <<>>, r |-> <<>>, scale |-> 1]
                  [] o \in {"apply", "applyfn"} -> [op |-> o, v |-> 0, conds |-> <<>>, u |-> Vec(2 * t), r |-> Vec(2 * t + 1), scale |-> PickS(s, 90 + t, <<1, 1, 2, 0, -3>>)]
                  [] OTHER -> [op |-> o, v |-> 0, conds |-> <<>>, u |-> Vec(2 * t), r |-> <<>>, scale |-> 1]
  IN [dim |-> Dim(fam[1]), meshes |-> ms, vecs |-> vecs, den |-> 4, single |-> nv = 1 /\ r % 2 = 0,
      bcs |-> [v \in 1..nv |-> Conds(v, 0)], ops |-> [t \in 1..nops |-> OpN(t)], cost |-> 1, grp |-> <<f, r % 2>>]
Reps == IF Thorough THEN 1..60 ELSE 1..9
ASSUME Emit({Sc(f, r) : f \in 1..4, r \in Reps})
=============================================================================
