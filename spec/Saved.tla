-------------------------------- MODULE Saved -------------------------------
(* The directory of result files as an abstract state: a file holds the      *)
(* content of the last accepted operation that wrote it, or nothing.         *)
EXTENDS Tiling
\* value k (in eighths) after rounding to single precision (24 bits), for |k| < 2^25
P24 == 16777216
F32p(k) == IF k < P24 THEN k ELSE IF k % 2 = 0 THEN k ELSE IF (k \div 2) % 2 = 0 THEN k - 1 ELSE k + 1
F32(k) == IF k >= 0 THEN F32p(k) ELSE -F32p(-k)
Rows32(rows) == [i \in 1..Len(rows) |-> [j \in 1..Len(rows[i]) |-> F32(rows[i][j])]]
\* a field has [name, tail, rows]: one row of flattened components per item
NC(f) == IF Len(f.rows) = 0 THEN 0 ELSE Len(f.rows[1])
SizedPoint(f, mesh) == Len(f.rows) = Len(mesh.pts)
SizedCell(f, mesh) == Len(f.rows) = Len(mesh.cells)
MustReject(c, mesh) == \/ ~SizedPoint(c.sol, mesh)
                       \/ \E i \in 1..Len(c.pfields) : ~SizedPoint(c.pfields[i], mesh)
                       \/ \E i \in 1..Len(c.cfields) : ~SizedCell(c.cfields[i], mesh)
\* multi-component cell data may be rejected
MayReject(c) == \E i \in 1..Len(c.cfields) : Len(c.cfields[i].tail) > 0
Accepted(c, mesh, rejected) == IF rejected = 1 THEN MustReject(c, mesh) \/ MayReject(c) ELSE ~MustReject(c, mesh)
After(files, f, content, rejected) == IF rejected = 1 THEN files ELSE [files EXCEPT ![f] = content]

\* the legacy VTK format knows vectors of three components only: two are padded with a zero
Padded(row, ext) == IF ext = "vtk" /\ Len(row) = 2 THEN row \o <<0>> ELSE row
FieldIs(f, seen, ext) == /\ Len(seen.rows) = Len(f.rows)
                         /\ \A i \in 1..Len(f.rows) : seen.rows[i] = Padded(Rows32(f.rows)[i], ext)
Names(fs) == {fs[i].name : i \in 1..Len(fs)}
Named(fs, n) == fs[CHOOSE i \in 1..Len(fs) : fs[i].name = n]
FieldsFails(want, seen, ext) ==
   (IF Names(want) \ Names(seen) # {} THEN {"field_missing"} ELSE {})
   \cup (IF Names(seen) \ Names(want) # {} \/ Cardinality(Names(seen)) # Len(seen) THEN {"field_not_saved_by_anyone"} ELSE {})
   \cup (IF \E n \in Names(want) \cap Names(seen) : ~FieldIs(Named(want, n), Named(seen, n), ext) THEN {"field_values"} ELSE {})
PtsFails(mesh, seen) == IF Len(seen) # Len(mesh.pts) \/ \E j \in 1..Len(seen) :
      ~(\A k \in 1..Len(seen[j]) : seen[j][k] = IF k <= Len(mesh.pts[j]) THEN mesh.pts[j][k] ELSE 0) \/ Len(seen[j]) < Len(mesh.pts[j]) THEN {"points"} ELSE {}
ContentFails(c, mesh, e) ==
   PtsFails(mesh, e.pts)
   \cup (IF e.cell_type # CellName(mesh.et) THEN {"cell_type"} ELSE IF e.cells # mesh.cells THEN {"cells"} ELSE {})
   \cup FieldsFails(<<c.sol>> \o c.pfields, e.pdata, c.ext) \cup FieldsFails(c.cfields, e.cdata, c.ext)
\* --- conversions: a text is a sequence of tokens
Tok(t) == CASE t = "old" -> "<VTKFile type=\"UnstructuredGrid\" version=\"2.2\">" [] t = "new" -> "<VTKFile type=\"UnstructuredGrid\" version=\"1.0\">"
   [] t = "nl" -> "\n" [] t = "poly" -> "<VTKFile type=\"PolyData\" version=\"2.2\">" [] t = "tab" -> "\t " [] OTHER -> t
Conv(t) == IF t = "old" THEN Tok("new") ELSE Tok(t)
RECURSIVE Text(_, _, _)
Text(s, f(_), i) == IF i > Len(s) THEN "" ELSE f(s[i]) \o Text(s, f, i + 1)
=============================================================================
