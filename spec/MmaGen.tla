------------------------------- MODULE MmaGen ------------------------------
(* C13 scenarios: histories of MMA updates, and runs of the driver.          *)
EXTENDS GenBase, Grid
Ints(n, s, k, lo, hi) == [j \in 1..n |-> PickR(s, k + 13 * j, lo, hi)]
\* gradient of sum_j w_j (x_j - t_j)^2 / 2 + lin_j x_j, tenths
Fun(n, s, k, convex) == [w |-> Ints(n, s, k, IF convex THEN 0 ELSE -6, 9), t |-> Ints(n, s, k + 1, -12, 12), lin |-> Ints(n, s, k + 2, -8, 8), c |-> PickR(s, k + 3, -20, 20)]
DirectSc(r) ==
  LET s == SEED * 311 + r * 977
      n == PickS(s, 1, <<1, 2, 3, 4, 5, 2, 3>>)
      m == PickS(s, 2, <<1, 2, 3, 5, 1, 2, 4>>)
      xmin == Ints(n, s, 10, -5, 0)
      xmax == [j \in 1..n |-> xmin[j] + PickR(s, 20 + j, 1, 6)]
      len == PickR(s, 3, 4, 7)
  IN [kind |-> "direct", n |-> n, m |-> m, xmin |-> xmin, xmax |-> xmax,
      x0 |-> [j \in 1..n |-> PickR(s, 30 + j, 0, 8)],                \* eighths of the range
      f0 |-> Fun(n, s, 100, Pick(s, 4, 3) > 0),
      fs |-> [i \in 1..m |-> Fun(n, s, 200 + 50 * i, TRUE)],
      a0 |-> PickS(s, 5, <<1, 1, 2, 5>>), a |-> IF Pick(s, 6, 2) = 0 THEN [i \in 1..m |-> 0] ELSE Ints(m, s, 40, 0, 2),
      c |-> PickS(s, 7, <<1000, 100, 10, 10000>>), d |-> IF Pick(s, 8, 2) = 0 THEN [i \in 1..m |-> 0] ELSE Ints(m, s, 50, 0, 3),
      \* move limit in hundredths, one per update; 1 at a position resets the counter
      moves |-> [k \in 1..len |-> IF k = 1 THEN PickS(s, 9, <<20, 50, 100, 5>>) ELSE IF Pick(s, 60 + k, 4) = 0 THEN PickS(s, 70 + k, <<10, 20, 100>>) ELSE PickS(s, 9, <<20, 50, 100, 5>>)],
      resets |-> [k \in 1..len |-> IF k > 2 /\ Pick(s, 80 + k, 9) = 0 THEN 1 ELSE 0],
      path |-> <<>>, wobble |-> [k \in 1..len |-> [j \in 1..n |-> IF Pick(s, 90 + k + 7 * j, 3) = 0 THEN PickR(s, 95 + k + 7 * j, -9, 9) ELSE 0]],
      cost |-> 1, grp |-> <<"direct", r % 4>>]
\* --- the optimisation driver on a mesh
MeshCase(e, s) ==
   LET et == (<<"QUAD4", "TRI3", "HEX8", "QUAD8">>)[e]
       n == CASE et = "QUAD4" -> PickS(s, 3, << <<3,2>>, <<4,1>>, <<3,3>> >>) [] et = "TRI3" -> <<2,2>> [] et = "HEX8" -> PickS(s, 3, << <<2,2,1>>, <<3,1,1>> >>) [] OTHER -> <<2,2>>
       m == Build(et, Frames(Base(et), n, s, TRUE), s)
       kind == IF et = "HEX8" THEN "box" ELSE PickS(s, 8, <<"box", "shear">>)
       p == Coords(m, kind, s)
       A == AffMat(2, s)
       det == IF kind = "box" THEN 1 ELSE A[1][1] * A[2][2] - A[1][2] * A[2][1]
   IN [mesh |-> MeshRec(m, p), msq |-> (64 * det) \div (IF et = "TRI3" THEN 2 ELSE 1)]
DriverSc(r) ==
  LET s == SEED * 613 + r * 389 e == 1 + ((r - 1) % 4)
      mc == MeshCase(e, s) mesh == mc.mesh
      nc == Len(mesh.cells)
      all == [i \in 1..nc |-> i - 1]
      flex == IF r % 3 = 0 THEN all ELSE LET pm == Perm(nc, s + 5) k == Max2(1, nc - 1 - Pick(s, 6, 2)) IN [i \in 1..k |-> pm[i] - 1]
      n == Len(flex)
      m == PickS(s, 2, <<1, 2, 1, n + 1, 3>>)
  IN [kind |-> "driver", mesh |-> mesh, msq |-> mc.msq, den |-> PickS(s, 12, <<4, 1, 8>>), flex |-> flex, n |-> n, m |-> m,
      rho0 |-> [j \in 1..n |-> IF Pick(s, 30 + j, 6) = 0 THEN 0 ELSE PickR(s, 31 + j, 1, 10)],        \* tenths
      f0 |-> Fun(n, s, 100, TRUE), fs |-> [i \in 1..m |-> Fun(n, s, 200 + 50 * i, TRUE)],
      move |-> PickS(s, 9, <<20, 10, 50, 5>>), iters |-> PickS(s, 10, <<3, 4, 5, 1, 6, 0>>),
      sens |-> IF Pick(s, 11, 4) = 0 THEN 0 ELSE 1, dens |-> IF Pick(s, 13, 3) = 0 THEN 1 ELSE 0, drift |-> PickR(s, 14, 0, 5), twice |-> IF Pick(s, 15, 4) = 0 THEN 1 ELSE 0,
      vecs |-> [dJ |-> Ints(n, s, 700, -50, 50), dv |-> [i \in 1..2 |-> Ints(n, s, 750 + 20 * i, -50, 50)], rho |-> [j \in 1..n |-> IF Pick(s, 800 + j, 5) = 0 THEN 0 ELSE PickR(s, 801 + j, 1, 10)]],
      cost |-> 2, grp |-> <<"driver", e, r % 2>>]
\* twenty small steps in one direction carry the asymptotes to their far limits
MarchSc(r) ==
  LET s == SEED * 401 + r * 733 n == PickS(s, 1, <<1, 2, 3>>) m == PickS(s, 2, <<1, 2, 4>>) len == 20
      xmin == Ints(n, s, 10, -5, 0)
      up == [j \in 1..n |-> Pick(s, 15 + j, 2)]
      flat(k) == [w |-> [j \in 1..n |-> 0], t |-> [j \in 1..n |-> 0], lin |-> Ints(n, s, k, -3, 3), c |-> -90]
  IN [kind |-> "direct", n |-> n, m |-> m, xmin |-> xmin, xmax |-> [j \in 1..n |-> xmin[j] + PickR(s, 20 + j, 1, 4)],
      x0 |-> [j \in 1..n |-> IF up[j] = 1 THEN 1 ELSE 7],
      f0 |-> [w |-> [j \in 1..n |-> 0], t |-> [j \in 1..n |-> 0], lin |-> [j \in 1..n |-> (IF up[j] = 1 THEN -1 ELSE 1) * PickR(s, 30 + j, 4, 9)], c |-> 5],
      fs |-> [i \in 1..m |-> flat(50 + 5 * i)], a0 |-> 1, a |-> [i \in 1..m |-> 0], c |-> 1000, d |-> [i \in 1..m |-> 0],
      moves |-> [k \in 1..len |-> PickS(s, 9, <<3, 4, 2>>)], resets |-> [k \in 1..len |-> 0], wobble |-> [k \in 1..len |-> [j \in 1..n |-> 0]], path |-> <<>>,
      cost |-> 3, grp |-> <<"march", r % 4>>]
\* iterates that swing (each variable in its own rhythm) carry the asymptotes to their near limits
SwingSc(r) ==
  LET s == SEED * 409 + r * 739 m0 == MarchSc(r + 7) n == PickS(s, 1, <<2, 3, 4>>) len == 18
      xmin == Ints(n, s, 10, -5, 0)
      rhythm == [j \in 1..n |-> PickS(s, 15 + j, << <<1, -1>>, <<1, -1>>, <<1, -1, 2, -2>>, <<1, 0, -1, 0>>, <<1, 1, -1>> >>)]
      at(k, j) == 500 + 100 * PickR(s, 60 + j, -3, 3) + PickR(s, 70 + j, 1, 9) * rhythm[j][1 + (k % Len(rhythm[j]))]
  IN [m0 EXCEPT !.n = n, !.xmin = xmin, !.xmax = [j \in 1..n |-> xmin[j] + PickS(s, 20 + j, <<1, 1, 4, 9>>)], !.x0 = [j \in 1..n |-> 4],
        !.f0 = Fun(n, s, 100, TRUE), !.fs = [i \in 1..m0.m |-> Fun(n, s, 200 + 50 * i, TRUE)], !.moves = [k \in 1..len |-> PickS(s, 9, <<20, 50, 5>>)],
        !.resets = [k \in 1..len |-> 0], !.wobble = [k \in 1..len |-> [j \in 1..n |-> 0]], !.path = [k \in 1..len |-> [j \in 1..n |-> at(k, j)]], !.cost = 3, !.grp = <<"swing", r % 4>>]
Emitted == {SwingSc(r) : r \in 1..(IF Thorough THEN 24 ELSE 4)} \cup {MarchSc(r) : r \in 1..(IF Thorough THEN 20 ELSE 3)} \cup {DirectSc(r) : r \in 1..(IF Thorough THEN 300 ELSE 40)} \cup {DriverSc(r) : r \in 1..(IF Thorough THEN 100 ELSE 16)}
ASSUME Emit(Emitted)
=============================================================================
