------------------------------ MODULE BasisGen -----------------------------
(* C01 scenarios: every element type with every rule spelling and order.     *)
EXTENDS GenBase, Topo
Rules == <<"none", "default", "gauss_jacobi", "Gauss-Jacobi", "enum:gauss_jacobi", "gll", "GLL", "enum:gll", "xiao_gimbutas", "Xiao-Gimbutas">>
Canon(r) == CASE r \in {"gauss_jacobi", "Gauss-Jacobi", "enum:gauss_jacobi"} -> "gauss_jacobi"
              [] r \in {"gll", "GLL", "enum:gll"} -> "gll"
              [] r \in {"xiao_gimbutas", "Xiao-Gimbutas"} -> "xiao_gimbutas" [] OTHER -> "default"
Orders(et, r) == IF r \in {"none"} THEN {-1, 0, 1, 2, 3, 4, 5} \cup (IF Thorough THEN {6, 8} ELSE {})
                 ELSE IF r \in {"default", "gauss_jacobi", "gll", "xiao_gimbutas"} THEN {-1, 1, 2, 3} \cup (IF Thorough THEN {0, 4, 5, 6} ELSE {})
                 ELSE {2}
Sz(et, o) == IF Dim(et) = 2 THEN 1 ELSE NN(et)
Scs == {[et |-> et, spell |-> Rules[r], rule |-> Canon(Rules[r]), order |-> o, grp |-> et, cost |-> 1] :
        et \in Types, r \in 1..Len(Rules), o \in -1..8}
Chosen == {s \in Scs : s.order \in Orders(s.et, s.spell)
             /\ ~(s.et = "HEX27" /\ s.order = -1 /\ s.spell \notin {"none"})       \* the 216-point default once
             /\ ~(s.et \in {"HEX27", "HEX20"} /\ s.order > 4 /\ ~Thorough)}
ASSUME Emit(Chosen)
=============================================================================
