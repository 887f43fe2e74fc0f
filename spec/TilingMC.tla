------------------------------ MODULE TilingMC -----------------------------
(* The acceptance conditions for meshes accept every structured tiling the   *)
(* builder makes (all element types, division counts, thicknesses, numbering *)
(* and local rotations) and reject every single-fault mutation of it.        *)
EXTENDS Tiling
VARIABLES m, what
Counts(d) == IF d = 2 THEN {<<1,1>>, <<2,1>>, <<2,3>>} ELSE {<<1,1,1>>, <<2,1,1>>, <<1,2,2>>}
Hs(d) == IF d = 2 THEN {<<2,2>>, <<4,6>>} ELSE {<<2,2,2>>, <<4,2,6>>}
Make(et, n, h, r) ==
   LET b == Build(et, Frames(Base(et), n, r, r # 0), r)
   IN [et |-> et, n |-> n, h |-> h,
       pts |-> [j \in 1..Len(b.pos) |-> [k \in 1..Dim(et) |-> (b.pos[j][k] * h[k]) \div 2]], cells |-> Zero(b.cells)]
Init == /\ what = "built"
        /\ \E et \in Types : \E n \in Counts(Dim(et)) : \E h \in Hs(Dim(et)) : \E r \in {0, 5} : m = Make(et, n, h, r)
DropCell == Len(m.cells) > 1 /\ \E c \in {1, Len(m.cells)} : m' = [m EXCEPT !.cells = [i \in 1..(Len(@) - 1) |-> IF i < c THEN @[i] ELSE @[i + 1]]]
TwiceCell == \E c \in {1, Len(m.cells)} : m' = [m EXCEPT !.cells = Append(@, @[c])]
SwapNodes == \E a \in {1, 2, NN(m.et)} : \E b \in {2, 3, NN(m.et) - 1} : a # b /\ m' = [m EXCEPT !.cells[1] = [@ EXCEPT ![a] = m.cells[1][b], ![b] = m.cells[1][a]]]
ExtraNode == m' = [m EXCEPT !.pts = Append(@, @[1])]
MoveNode == \E j \in {1, Len(m.pts)} : \E k \in 1..Dim(m.et) : m' = [m EXCEPT !.pts[j][k] = @ + m.h[k]]
SplitNode == Len(m.cells) > 1 /\ \E a \in {1, NN(m.et)} : m' = [m EXCEPT !.pts = Append(@, @[m.cells[1][a] + 1]), !.cells[1][a] = Len(m.pts)]
Next == what = "built" /\ what' = "mutated" /\ (DropCell \/ TwiceCell \/ SwapNodes \/ ExtraNode \/ MoveNode \/ SplitNode)
F == BoxFails(m.et, m.pts, m.cells, m.n, m.h)
Accepts == what = "built" => F = {}
\* simplex cells of the builder may be rotated, which the conditions allow; swapping two nodes never is
Rejects == what = "mutated" => F # {}
=============================================================================
