------------------------------- MODULE LifeMC ------------------------------
(* Problem objects with caches: geometry computed at construction and by     *)
(* recomputation, constraint rows kept until the installed index arrays are  *)
(* other objects, matrix values written by the latest assembly.  Two problem *)
(* objects may share their index arrays.  For every history of operations,   *)
(* what an assembly yields is that of what is installed in that object.      *)
EXTENDS Integers, Sequences
CONSTANT MaxOps
Obj == 1..2
VARIABLES par, bc, pts, geo, src, rows, mat, made, n, fresh
\* bc[k]: identity of the installed condition arrays; content[id] never changes
vars == <<par, bc, pts, geo, src, rows, mat, made, n, fresh>>
Content(id) == id % 3          \* arrays 1, 4 select the same dofs, 2 and 5, ... : equal content, other identity
Init == /\ par = [k \in Obj |-> 0] /\ bc \in {[k \in Obj |-> 1], [k \in Obj |-> k]} /\ pts = [k \in Obj |-> 0]
        /\ geo = [k \in Obj |-> 0] /\ src = [k \in Obj |-> 0] /\ rows = [k \in Obj |-> -1] /\ mat = [k \in Obj |-> <<>>] /\ made = [k \in Obj |-> <<>>] /\ n = 0 /\ fresh = 2
Op == n < MaxOps /\ n' = n + 1
SetParams(k) == Op /\ par' = [par EXCEPT ![k] = 1 - @] /\ UNCHANGED <<bc, pts, geo, src, rows, mat, made, fresh>>
NewConds(k) == Op /\ fresh' = fresh + 1 /\ bc' = [bc EXCEPT ![k] = fresh + 1] /\ UNCHANGED <<par, pts, geo, src, rows, mat, made>>
ShareConds(k) == Op /\ bc' = [bc EXCEPT ![k] = bc[3 - k]] /\ UNCHANGED <<par, pts, geo, src, rows, mat, made, fresh>>
Move(k) == Op /\ pts' = [pts EXCEPT ![k] = 1 - @] /\ geo' = [geo EXCEPT ![k] = 1 - pts[k]] /\ UNCHANGED <<par, bc, src, rows, mat, made, fresh>>
\* an assembly: values from parameters and geometry; rows refreshed if the arrays are other ones than those the rows were made from
Assemble(k) == /\ Op
               /\ LET r == IF src[k] = bc[k] THEN rows[k] ELSE Content(bc[k]) IN
                  /\ rows' = [rows EXCEPT ![k] = r] /\ src' = [src EXCEPT ![k] = bc[k]]
                  /\ mat' = [mat EXCEPT ![k] = <<par[k], geo[k], r>>]
                  /\ made' = [made EXCEPT ![k] = <<par[k], pts[k], Content(bc[k])>>]      \* what was installed then
               /\ UNCHANGED <<par, bc, pts, geo, fresh>>
Next == \E k \in Obj : SetParams(k) \/ NewConds(k) \/ ShareConds(k) \/ Move(k) \/ Assemble(k)
Function == \A k \in Obj : mat[k] = made[k]
GeometryCurrent == \A k \in Obj : geo[k] = pts[k]
RowsOfSource == \A k \in Obj : src[k] # 0 => rows[k] = Content(src[k])
=============================================================================
