------------------------------ MODULE PlastMC ------------------------------
(* All deformation histories over an alphabet of increments, to a depth:     *)
(* the return map of the specification is admissible, irreversible, radial,  *)
(* volume-preserving, frame-indifferent and idempotent along all of them.    *)
EXTENDS Plast, IOUtils
CONSTANT Depth
VARIABLES s, prev, k
M(a) == TLCEval([i \in I3 |-> [j \in I3 |-> WAdd(WId[i][j], WRat(a[i][j], 1000))]])
Incs == << M(<< <<0,12,0>>, <<0,0,0>>, <<0,0,0>> >>), M(<< <<0,-25,0>>, <<0,0,0>>, <<0,0,0>> >>), M(<< <<4,0,0>>, <<0,-2,0>>, <<0,0,-2>> >>), M(<< <<-60,0,0>>, <<0,30,10>>, <<0,5,20>> >>),
           M(<< <<100,0,0>>, <<0,100,0>>, <<0,0,100>> >>), MQuat(<<3, 0, 0, 1>>), MQuat(<<2, 1, -1, 0>>), WId >>
Q == TLCEval(MQuat(<<2, 1, 3, -1>>))
Init == s = Virgin /\ prev = Virgin /\ k = 0
Next == k < Depth /\ k' = k + 1 /\ prev' = s /\ \E i \in 1..Len(Incs) : s' = TLCEval(Step(s, MMul(Incs[i], s.F)))
T6 == WTen(6)
T9 == WTen(9)
\* the last step, seen from its start
InvStep == k = 0 \/ LET t == Trial(prev, s.F) IN
   /\ Admissible(s, T6) /\ WLe(prev.al, s.al) /\ (t.phi[1] = 1 <=> WLe(WAdd(prev.al, WTen(14)), s.al)) /\ Radial(s, t, T6) /\ Coaxial(prev, s, t, T9) /\ SameVolume(s, t, T9)
InvFrame == k = 0 \/ SameState(Step(Rotated(prev, Q), MMul(Q, s.F)), Rotated(s, Q), T9)
\* rotating on from a state turns it rigidly, and holding it changes nothing
InvRigid == SameState(Step(s, MMul(Q, s.F)), Rotated(s, Q), T9) /\ SameState(Step(s, s.F), s, T9)
\* the reference configuration does not matter for the isochoric part of a dilation
InvDilation == LET n == Step(s, MScale(WRat(11, 10), s.F)) IN MNear(n.be, s.be, T9) /\ WNear(n.al, s.al, T9)
=============================================================================
