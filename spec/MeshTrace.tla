------------------------------ MODULE MeshTrace ----------------------------
(* C14.  Every generated mesh is judged as a tiling of the requested domain. *)
EXTENDS TraceBase, Tiling
\* coordinates are recorded in thousandths of a lattice unit
Lattice(p) == [j \in 1..Len(p) |-> [k \in 1..Len(p[j]) |-> p[j][k] \div 1000]]
MeshFails(c, e) ==
  IF e.cell_type # CellName(c.et) \/ e.blocks # 1 THEN {"cell_type"}
  ELSE IF c.kind = "cylinder" THEN CylFails(e.pts, e.cells, c.q, c.m, c.rho)
  ELSE IF \E j \in 1..Len(e.pts) : \E k \in 1..Len(e.pts[j]) : e.pts[j][k] % 1000 # 0 THEN {"node_off_lattice"}
  ELSE BoxFails(c.et, Lattice(e.pts), e.cells, c.n, c.h)
Fails(c, e) ==
  CASE e.op = "mesh" -> MeshFails(c, e)
    [] e.op = "names" -> IF \E i \in 1..Len(c.ets) : e.names[i] # CellName(c.ets[i]) THEN {"cell_type_name"} ELSE {}
    [] e.op = "tetcheck" ->
         LET v(i, a) == c.pts[c.cells[i][a] + 1]
             q(i) == Det3(VSub(v(i, 2), v(i, 1)), VSub(v(i, 3), v(i, 1)), VSub(v(i, 4), v(i, 1)))
         IN IF Len(e.q) # Len(c.cells) \/ \E i \in 1..Len(c.cells) : e.q[i] # 1000 * q(i) THEN {"orientation_measure"} ELSE {}
    [] OTHER -> {"unexpected_event"}
MyInit(sc) == 1
MyApply(s, sc, e) == IF e.op = "error" THEN [st |-> s, fails |-> {"unexpected_event"}]
   ELSE [st |-> s + 1, fails |-> TLCEval(Fails(sc.calls[s], e))]
=============================================================================
