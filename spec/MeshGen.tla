------------------------------- MODULE MeshGen -----------------------------
(* C14 scenarios: histories of mesh generation in one process and directory. *)
EXTENDS GenBase, Grid
Us == <<"1", "0.1", "0.37", "25", "0.001", "3.3">>
N1(s, k) == PickS(s, k, IF Thorough THEN <<1, 2, 3, 1, 4, 7, 2, 5, 8>> ELSE <<1, 2, 3, 1, 4, 5, 2>>)
H1(s, k) == 2 * PickS(s, k, <<1, 2, 3, 5, 1>>)
Dims(d, s, k) == [i \in 1..d |-> N1(s, k + 7 * i)]
Ths(d, s, k) == [i \in 1..d |-> H1(s, k + 11 * i)]
Rect(s, k) == [kind |-> "rectangle", et |-> "QUAD4", n |-> Dims(2, s, k), h |-> Ths(2, s, k), u |-> PickS(s, k + 1, Us)]
Bx(s, k) == [kind |-> "box", et |-> "HEX8", n |-> Dims(3, s, k), h |-> Ths(3, s, k), u |-> PickS(s, k + 1, Us)]
Small(n) == [i \in 1..3 |-> IF i = 3 THEN n[i] ELSE 1 + ((n[i] - 1) % 3)]
Gm(s, k, et) == [kind |-> "gmsh", et |-> et, n |-> IF et = "HEX8" THEN Dims(3, s, k) ELSE Small(Dims(3, s, k)), h |-> Ths(3, s, k), u |-> PickS(s, k + 1, Us)]
Cy(s, k) == LET q == PickS(s, k, <<1, 2, 3, 4>>) IN
   [kind |-> "cylinder", et |-> "HEX8", q |-> q, m |-> N1(s, k + 2), r |-> PickS(s, k + 3, <<"5", "1", "0.3", "12">>), hh |-> PickS(s, k + 4, <<"10", "0.5", "3">>),
    rho |-> PickS(s, k + 5, <<4000, 5000, 3000, 2500>>)]
Tet(s, k) == [kind |-> "tetcheck", pts |-> [j \in 1..6 |-> [i \in 1..3 |-> PickR(s, k + 3 * j + i, -7, 7)]],
              cells |-> [c \in 1..4 |-> [a \in 1..4 |-> ((a * (1 + (c % 2)) + c * 2 + Pick(s, k + 90 + c, 3)) % 6)]]]
Types9 == <<"TRI3", "TRI6", "QUAD4", "QUAD8", "TET4", "TET10", "HEX8", "HEX20", "HEX27">>
Names == [kind |-> "names", ets |-> Types9]
ET4 == <<"HEX8", "TET4", "TET10", "HEX27">>
Sc(g, r) == LET s == SEED * 173 + g * 1009 + r * 41 IN
  [calls |-> CASE g = 1 -> <<Rect(s, 1), Rect(s, 40), Names, Bx(s, 80), Rect(s, 120)>>
               [] g = 2 -> <<Bx(s, 1), Bx(s, 40), Tet(s, 200), Rect(s, 5)>>
               [] g = 3 -> LET e == ET4[1 + (r % 4)] e2 == ET4[1 + ((r + 1 + Pick(s, 3, 3)) % 4)] IN <<Gm(s, 1, e), Gm(s, 50, e2)>>
               [] g = 4 -> LET e == ET4[1 + (r % 4)] IN <<Gm(s, 1, e), Bx(s, 9), Gm(s, 50, e)>>
               [] OTHER -> <<Cy(s, 1), Gm(s, 30, "HEX8"), Cy(s, 60)>>,
   cost |-> g, grp |-> <<g, r % 4>>]
Reps == IF Thorough THEN 1..80 ELSE 1..10
ASSUME Emit({Sc(g, r) : g \in 1..5, r \in Reps})
=============================================================================
