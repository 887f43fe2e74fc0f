-------------------------------- MODULE Grid -------------------------------
(* Integer lattice meshes.  A cell is first a frame on the half-unit lattice *)
(* (origin and rotation for tensor cells, vertex positions for simplices);   *)
(* nodes are lattice positions numbered in a pseudo-random order; physical   *)
(* coordinates are integers over a common denominator.                       *)
EXTENDS Num, Topo
LOCAL INSTANCE SequencesExt

Enc(p) == IF Len(p) = 2 THEN p[1] + 100 * p[2] ELSE p[1] + 100 * p[2] + 10000 * p[3]
Dec(c, d) == IF d = 2 THEN <<c % 100, c \div 100>> ELSE <<c % 100, (c \div 100) % 100, c \div 10000>>
VAdd(a, b) == [k \in 1..Len(a) |-> a[k] + b[k]]
VSub(a, b) == [k \in 1..Len(a) |-> a[k] - b[k]]

\* --- rotations of the half-unit cube {0,1,2}^d about its centre
Rz(x) == IF Len(x) = 2 THEN <<2 - x[2], x[1]>> ELSE <<2 - x[2], x[1], x[3]>>
Cyc(x) == <<x[2], x[3], x[1]>>
RECURSIVE Iter(_, _, _)
Iter(f(_), n, x) == IF n = 0 THEN x ELSE Iter(f, n - 1, f(x))
Rot(r, x) == IF Len(x) = 2 THEN Iter(Rz, r % 4, x)
             ELSE LET y == Iter(Cyc, r % 3, x) z == Iter(Rz, (r \div 3) % 4, y)
                      flip(w) == <<2 - w[1], 2 - w[2], w[3]>>
                      turn(w) == <<w[1], 2 - w[2], 2 - w[3]>>
                  IN IF (r \div 12) % 2 = 1 THEN turn(z) ELSE z
EvenPerms(d) == IF d = 2 THEN << <<1,2,3>>, <<2,3,1>>, <<3,1,2>> >>
   ELSE << <<1,2,3,4>>, <<1,3,4,2>>, <<1,4,2,3>>, <<2,1,4,3>>, <<2,3,1,4>>, <<2,4,3,1>>,
           <<3,1,2,4>>, <<3,2,4,1>>, <<3,4,1,2>>, <<4,1,3,2>>, <<4,2,1,3>>, <<4,3,2,1>> >>

\* --- boxes of a block, in lexicographic order; origins on the even lattice
Boxes(n) == IF Len(n) = 2 THEN [i \in 1..(n[1]*n[2]) |-> <<2 * ((i-1) % n[1]), 2 * ((i-1) \div n[1])>>]
            ELSE [i \in 1..(n[1]*n[2]*n[3]) |-> <<2 * ((i-1) % n[1]), 2 * (((i-1) \div n[1]) % n[2]), 2 * ((i-1) \div (n[1]*n[2]))>>]
\* Kuhn split of the box: vertex position sequences, positively oriented
KuhnOrders == << <<1,2,3>>, <<2,3,1>>, <<3,1,2>>, <<2,1,3>>, <<1,3,2>>, <<3,2,1>> >>
Step(p, k) == [p EXCEPT ![k] = @ + 2]
KuhnTets(o) == [i \in 1..6 |->
   LET q == KuhnOrders[i] a == Step(o, q[1]) b == Step(a, q[2]) c == Step(b, q[3])
   IN IF i <= 3 THEN <<o, a, b, c>> ELSE <<o, b, a, c>>]
SplitTris(o, diag) == IF diag = 0 THEN << <<o, Step(o,1), Step(Step(o,1),2)>>, <<o, Step(Step(o,1),2), Step(o,2)>> >>
                      ELSE << <<o, Step(o,1), Step(o,2)>>, <<Step(o,1), Step(Step(o,1),2), Step(o,2)>> >>

\* --- frames, in a pseudo-random cell order with pseudo-random local orientation
RawFrames(base, n, seed) == LET bs == Boxes(n) IN
  CASE base = "TRI3" -> FlattenSeq([i \in 1..Len(bs) |-> SplitTris(bs[i], Pick(seed, i, 2))])
    [] base = "TET4" -> FlattenSeq([i \in 1..Len(bs) |-> KuhnTets(bs[i])])
    [] OTHER -> bs
Frames(base, n, seed, shuffle) ==
  LET d == Len(n) raw == TLCEval(RawFrames(base, n, seed)) m == Len(raw)
      pm == TLCEval(IF shuffle THEN Perm(m, seed + 3) ELSE [i \in 1..m |-> i])
      one(i) == LET f == raw[pm[i]] IN
         IF base \in {"TRI3", "TET4"}
         THEN LET ep == EvenPerms(d) q == IF shuffle THEN PickS(seed, 500 + i, ep) ELSE ep[1]
              IN [v |-> [k \in 1..(d + 1) |-> f[q[k]]]]
         ELSE [o |-> f, r |-> IF shuffle THEN Pick(seed, 700 + i, 24) ELSE 0]
  IN TLCEval([i \in 1..m |-> one(i)])
\* lattice position of local node a of a frame
NodePos(et, fr, a) == LET X == NodeXi(et)[a] d == Dim(et) IN
  IF IsSimplex(et)
  THEN LET b(v) == IF v = 1 THEN 2 - (X[1] + X[2] + (IF d = 3 THEN X[3] ELSE 0)) ELSE X[v - 1]
       IN [k \in 1..d |-> SumSeq([v \in 1..(d + 1) |-> b(v) * fr.v[v][k]]) \div 2]
  ELSE VAdd(fr.o, Rot(fr.r, X))
\* [et, pos (node id -> lattice position), cells (node ids, from 1)]
Build(et, frames, seed) ==
  LET d == Dim(et)
      raw == TLCEval([c \in 1..Len(frames) |-> [a \in 1..NN(et) |-> Enc(NodePos(et, frames[c], a))]])
      codes == TLCEval(SetToSeq(UNION {SeqToSet(raw[c]) : c \in 1..Len(raw)}))
      m == Len(codes)
      pm == TLCEval(Perm(m, seed + 17))                    \* codes[k] gets id pm[k]
      S == SeqToSet(codes)
      idof == TLCEval([x \in S |-> pm[CHOOSE k \in 1..m : codes[k] = x]])
      byid == TLCEval([j \in 1..m |-> CHOOSE x \in S : idof[x] = j])
  IN TLCEval([et |-> et, pos |-> [j \in 1..m |-> Dec(byid[j], d)],
      cells |-> [c \in 1..Len(raw) |-> [a \in 1..NN(et) |-> idof[raw[c][a]]]]])

\* --- physical coordinates (numerators over den)
\* kinds: "box" scaled box; "shear" integer affine map; "extr" in-plane perturbation, then affine; "curve" every node perturbed (twice the scale: use DenOf)
AffMat(d, seed) == LET ms == IF d = 2 THEN << <<<<1,0>>, <<0,1>>>>, <<<<1,1>>, <<0,1>>>>, <<<<2,0>>, <<1,1>>>>, <<<<1,-1>>, <<1,1>>>>, <<<<0,-1>>, <<1,0>>>> >>
                     ELSE << <<<<1,0,0>>, <<0,1,0>>, <<0,0,1>>>>, <<<<1,1,0>>, <<0,1,0>>, <<0,0,1>>>>, <<<<1,0,0>>, <<0,1,1>>, <<0,0,2>>>>,
                             <<<<0,0,1>>, <<1,0,0>>, <<0,1,0>>>>, <<<<1,0,1>>, <<0,1,0>>, <<-1,1,1>>>> >>
                IN PickS(seed, 41, ms)
MatVec(m, p) == [k \in 1..Len(p) |-> SumSeq([j \in 1..Len(p) |-> m[k][j] * p[j]])]
Coords(mesh, kind, seed) ==
  LET d == Dim(mesh.et) m == AffMat(d, seed) shift == [k \in 1..d |-> PickR(seed, 60 + k, -3, 3)]
      \* scale 4: lattice step 1 becomes 4 units
      p4(p) == [k \in 1..d |-> 4 * p[k]]
      pert(key, amp) == [k \in 1..d |-> PickR(seed + 7, 3 * key + k, -amp, amp)]
      one(j) == LET p == mesh.pos[j] IN
        CASE kind = "box" -> VAdd(p4(p), shift)
          [] kind = "shear" -> VAdd(MatVec(m, p4(p)), shift)
          [] kind = "shear8" -> VAdd(MatVec(m, [k \in 1..d |-> 8 * p[k]]), shift)
          [] kind = "extr" -> \* vertices move in the first two coordinates only; mid nodes follow their even neighbours
               LET ev(q) == pert(q[1] + 31 * q[2], 2)
                   lo == [k \in 1..d |-> p[k] - (p[k] % 2)] hi == [k \in 1..d |-> p[k] + (p[k] % 2)]
                   cs == {<<x, y>> : x \in {lo[1], hi[1]}, y \in {lo[2], hi[2]}}
                   n == Cardinality(cs)
                   \* perturbations are multiples of 2 for averaging over 2 and forced even sums over 4
                   e(k) == SumOver(cs, LAMBDA q : 4 * (ev(q)[k] \div 2)) \div n
               IN VAdd(MatVec(m, [k \in 1..d |-> IF k <= 2 THEN 8 * p[k] + e(k) ELSE 8 * p[k]]), shift)
          [] OTHER -> VAdd(MatVec(m, VAdd([k \in 1..d |-> 8 * p[k]], pert(j, 1))), shift)
  IN TLCEval([j \in 1..Len(mesh.pos) |-> one(j)])
DenOf(kind) == IF kind \in {"curve", "extr"} THEN 8 ELSE 4
\* the record handed to the driver (node ids from 0)
Zero(cells) == [c \in 1..Len(cells) |-> [a \in 1..Len(cells[c]) |-> cells[c][a] - 1]]
MeshRec(mesh, pts) == [et |-> mesh.et, pts |-> pts, cells |-> Zero(mesh.cells)]
=============================================================================
