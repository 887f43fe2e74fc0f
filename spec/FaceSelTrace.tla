---------------------------- MODULE FaceSelTrace ---------------------------
(* C03.  Each recorded selection is compared with the declarative selection. *)
EXTENDS TraceBase, FaceSel
Pairs(b) == {<<b[i][1], b[i][2]>> : i \in 1..Len(b)}
SelFails(sc, fv, k, b) ==
  LET ex == TLCEval(Selection(sc.mesh.cells, fv, Flags(sc.preds[k], sc.mesh.pts))) IN
  (IF ex \ Pairs(b) # {} THEN {"facet_missed"} ELSE {})
  \cup (IF Pairs(b) \ ex # {} THEN {"wrong_facet_selected"} ELSE {})
  \cup (IF Cardinality(Pairs(b)) # Len(b) THEN {"facet_selected_twice"} ELSE {})
Fails(sc, e) ==
  CASE e.op = "select" ->
         IF ~TableOK(sc.et, e.fv) THEN {"facet_table"}
         ELSE IF Len(e.sets) # Len(sc.preds) THEN {"number_of_sets"}
         ELSE UNION {SelFails(sc, e.fv, k, e.sets[k]) : k \in 1..Len(sc.preds)}
    [] e.op = "count" -> LET F == Facets(sc.et)
             fl == Flags(sc.preds[e.k], sc.mesh.pts)
             ex == Cardinality({<<c, f>> \in (1..Len(sc.mesh.cells)) \X F : \A v \in f : fl[sc.mesh.cells[c][v] + 1]})
         IN IF e.count # ex THEN {"facet_count_differs"} ELSE {}
    [] OTHER -> {"unexpected_event"}
MyInit(sc) == 0
MyApply(s, sc, e) == [st |-> s + 1, fails |-> TLCEval(Fails(sc, e))]
=============================================================================
