------------------------------ MODULE SavedGen ------------------------------
(* C15 scenarios: histories of saves, rejected saves, conversions and reads. *)
EXTENDS GenBase, Saved
MeshOf(e, s) ==
   LET et == (<<"TRI3", "TRI6", "QUAD4", "QUAD8", "TET4", "TET10", "HEX8", "HEX20", "HEX27">>)[e]
       n == IF Dim(et) = 2 THEN PickS(s, 3, << <<2,1>>, <<1,2>>, <<2,2>>, <<1,1>> >>) ELSE IF IsSimplex(et) THEN <<1,1,1>> ELSE PickS(s, 3, << <<2,1,1>>, <<1,1,1>>, <<1,2,1>> >>)
       m == Build(et, Frames(Base(et), n, s, TRUE), s)
   IN MeshRec(m, Coords(m, PickS(s, 6, <<"box", "shear">>), s))
Val(s, k) == CASE Pick(s, k, 12) = 0 -> P24 + 1 + 2 * Pick(s, k + 1, 40) [] Pick(s, k, 12) = 1 -> -(P24 + 1 + 2 * Pick(s, k + 1, 40)) [] OTHER -> PickR(s, k + 2, -400, 400)
Tails == << <<>>, <<1>>, <<2>>, <<3>>, <<3, 3>>, <<2>>, <<6>>, <<>> >>
RECURSIVE Prod(_)
Prod(t) == IF t = <<>> THEN 1 ELSE Head(t) * Prod(Tail(t))
Field(nm, n, tail, dt, s, k) == [name |-> nm, tail |-> tail, dt |-> dt,
   rows |-> [i \in 1..n |-> [j \in 1..Prod(tail) |-> IF dt = "i4" /\ nm \notin {"tiny", "huge"} THEN 8 * PickR(s, k + 7 * i + j, -90, 90) ELSE Val(s, k + 17 * i + 5 * j)]]]
DTs == <<"f8", "f4", "jax", "i4", "f8">>
PNames == <<"T", "tiny", "damage", "B", "huge">>      \* the driver scales fields named "tiny" and "huge" by powers of two
CNames == <<"stress", "theta", "tiny">>
Off(s, k) == PickS(s, k, <<-1, 1, 2>>)
SaveCall(f, meshes, mi, s, k, bad) ==
   LET m == meshes[mi]
       np == Len(m.pts) nc == Len(m.cells)
       a == Pick(s, k, 4) b == Pick(s, k + 1, 3)
       o == Pick(s, k + 2, 3)
       fld(nm, n, t, j) == Field(nm, n, t, IF n > 40 THEN "f8" ELSE PickS(s, k + 30 + j, DTs), s, k + 100 * j)
   IN [op |-> "save", file |-> f.name, ext |-> f.ext, mesh |-> mi,
       sol |-> fld("sol", np + (IF bad = 1 THEN Off(s, k + 3) ELSE 0), PickS(s, k + 4, << <<1>>, <<2>>, <<3>>, <<>> >>), 1),
       pfields |-> [i \in 1..(IF bad = 2 THEN Max2(a, 1) ELSE a) |-> fld(PNames[1 + ((i + o) % 5)], np + (IF bad = 2 /\ i = 1 THEN Off(s, k + 3) ELSE 0), PickS(s, k + 5 + i, Tails), 1 + i)],
       cfields |-> [i \in 1..(IF bad >= 3 THEN Max2(b, 1) ELSE b) |-> fld(CNames[1 + ((i + o) % 3)], nc + (IF bad = 3 /\ i = 1 THEN Off(s, k + 3) ELSE 0), IF bad = 4 /\ i = 1 THEN <<2>> ELSE <<>>, 6 + i)],
       nolists |-> Pick(s, k + 9, 3)]
Read(f) == [op |-> "read", file |-> f.name, ext |-> f.ext]
Toks == <<"old", "nl", "<Piece a=\"2.2\">", "tab", "old", "new", "poly", "nl", "some text version=\"2.2\"", "nl">>
ModCall(s, k) == LET n == 3 + Pick(s, k, 12) IN
   [op |-> "modify", toks |-> [i \in 1..n |-> IF i = 1 /\ Pick(s, k + 1, 4) > 0 THEN "old" ELSE PickS(s, k + i, Toks)], same |-> Pick(s, k + 2, 2)]
Abq(meshes) == {i \in 1..Len(meshes) : meshes[i].et \notin {"HEX20", "HEX27"}}
AbCall(meshes, s, k) == [op |-> "abaqus", mesh |-> PickS(s, k, SetToSeqSorted(Abq(meshes))), ext |-> PickS(s, k + 1, <<"vtu", "vtk">>)]
Timed(s, k, txt) == [op |-> "timed", args |-> <<PickR(s, k, -9, 9), PickR(s, k + 1, -9, 9)>>, kw |-> PickR(s, k + 2, -9, 9), raises |-> Pick(s, k + 3, 4) \div 3,
   wrap |-> PickS(s, k + 4, <<"timeit", "walltime", "walltime">>), txt |-> txt, fname |-> PickS(s, k + 5, <<"", "run">>), times |-> 1 + Pick(s, k + 6, 2)]
JsonCall(s, k) == [op |-> "json", data |-> [num |-> PickR(s, k, -99, 99), txt |-> PickS(s, k + 1, <<"", "a b", "x\"y">>), seq |-> [i \in 1..Pick(s, k + 2, 4) |-> PickR(s, k + 2 + i, 0, 9)], sub |-> [flag |-> Pick(s, k + 7, 2) = 1, deep |-> << [z |-> 1], [z |-> PickR(s, k + 8, 0, 9)] >>]]]
Sc(e, r) ==
  LET s == SEED * 211 + e * 1013 + r * 37
      ms == << MeshOf(e, s), MeshOf(1 + ((e + 3 + r) % 9), s + 5), MeshOf(1 + ((e + 7) % 9), s + 9), MeshOf(PickS(s, 40, <<5, 3, 1, 7, 6>>), s + 13) >>
      f1 == [name |-> PickS(s, 20, <<"a", "sub/dir/a", "x.y">>), ext |-> PickS(s, 21, <<"vtu", "vtk">>)]
      f2 == [name |-> "second", ext |-> PickS(s, 22, <<"vtu", "vtu", "vtk">>)]
      bad(k) == Pick(s, 800 + k, 6)
      m(k) == 1 + Pick(s, 900 + k, 4)
  IN [meshes |-> ms, den |-> 4,
      calls |-> << SaveCall(f1, ms, 1, s, 1000, 0), Read(f1), SaveCall(f2, ms, m(1), s, 3000, bad(1)), Read(f2), Read(f1),
                   SaveCall(f1, ms, m(2), s, 5000, bad(2)), Read(f1), SaveCall(f1, ms, m(3), s, 7000, 1 + (r % 4)), Read(f1),
                   SaveCall(f2, ms, m(4), s, 9000, 0), Read(f2), Read(f1),
                   ModCall(s, 11000), AbCall(ms, s, 11100), JsonCall(s, 11200), Timed(s, 11300, 1), Timed(s, 11400, Pick(s, 11401, 2)), ModCall(s, 11500) >>,
      cost |-> 1, grp |-> <<e, r>>]
Reps == IF Thorough THEN 1..60 ELSE 1..8
ASSUME Emit({Sc(e, r) : e \in 1..9, r \in Reps})
=============================================================================
