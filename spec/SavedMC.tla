------------------------------ MODULE SavedMC -------------------------------
(* Every history of up to MaxOps accepted and rejected saves to two files:   *)
(* reading a file yields the content of its last accepted save.              *)
EXTENDS Saved
CONSTANT MaxOps
VARIABLES files, log
None == [call |-> <<>>]
Mesh == [et |-> "TRI3", pts |-> << <<0,0>>, <<1,0>>, <<0,1>> >>, cells |-> << <<0,1,2>> >>]
Fld(nm, n, v, tail) == [name |-> nm, tail |-> tail, rows |-> [i \in 1..n |-> IF tail = <<>> THEN <<v + i>> ELSE <<v + i, v>>]]
Calls == {[sol |-> Fld("sol", n, v, <<>>), pfields |-> pf, cfields |-> cf, ext |-> "vtu"] :
   n \in {2, 3}, v \in {0, 7}, pf \in {<<>>, <<Fld("p", 3, 1, <<2>>)>>, <<Fld("p", 4, 1, <<>>)>>}, cf \in {<<>>, <<Fld("c", 1, 5, <<>>)>>, <<Fld("c", 1, 5, <<2>>)>>, <<Fld("c", 2, 5, <<>>)>>}}
Init == files = [f \in {"a", "b"} |-> None] /\ log = <<>>
Save(f, c, r) == Accepted(c, Mesh, r) /\ files' = After(files, f, [call |-> c], r) /\ log' = Append(log, [f |-> f, c |-> c, r |-> r])
Next == Len(log) < MaxOps /\ \E f \in {"a", "b"} : \E c \in Calls : \E r \in {0, 1} : Save(f, c, r)
LastOK(f) == {i \in 1..Len(log) : log[i].f = f /\ log[i].r = 0}
Seen(c) == [pts |-> Mesh.pts, cells |-> Mesh.cells, cell_type |-> "triangle", pdata |-> <<c.sol>> \o c.pfields, cdata |-> c.cfields]
Latest == \A f \in {"a", "b"} : IF LastOK(f) = {} THEN files[f] = None
   ELSE LET c == log[MaxOf(LastOK(f))].c IN files[f].call = c /\ ContentFails(c, Mesh, Seen(c)) = {} /\ ~MustReject(c, Mesh)
\* what was rejected had to be, or was multi-component cell data
Justified == \A i \in 1..Len(log) : log[i].r = 1 => MustReject(log[i].c, Mesh) \/ MayReject(log[i].c)
\* contents are told apart
Distinct == \A f, g \in {"a", "b"} : files[f] # None /\ files[g] # None /\ files[f] # files[g] => ContentFails(files[f].call, Mesh, Seen(files[g].call)) # {}
Rounding == \A k \in {0, 1, 7, P24 - 1, P24, P24 + 2} : F32(k) = k /\ F32(-k) = -k
   /\ F32(P24 + 1) = P24 /\ F32(P24 + 3) = P24 + 4 /\ F32(-P24 - 3) = -P24 - 4
=============================================================================
