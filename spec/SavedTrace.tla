------------------------------ MODULE SavedTrace ----------------------------
(* C15.  The recorded history is replayed against the abstract directory.    *)
EXTENDS TraceBase, Saved
Key(c) == c.file \o "." \o c.ext
FilesOf(sc) == {Key(sc.calls[i]) : i \in {j \in 1..Len(sc.calls) : sc.calls[j].op \in {"save", "read"}}}
MyInit(sc) == [n |-> 1, files |-> [f \in FilesOf(sc) |-> [call |-> 0]], times |-> 0]
Out(s, fails) == [st |-> [s EXCEPT !.n = @ + 1], fails |-> TLCEval(fails)]
ApplySave(s, sc, c, e) ==
   [st |-> [s EXCEPT !.n = @ + 1, !.files = After(@, Key(c), [call |-> s.n], e.rejected)],
    fails |-> (IF e.rejected = 0 /\ MustReject(c, sc.meshes[c.mesh]) THEN {"wrong_size_accepted"} ELSE {})
              \cup (IF e.rejected = 1 /\ ~MustReject(c, sc.meshes[c.mesh]) /\ ~MayReject(c) THEN {"valid_data_rejected"} ELSE {})
              \cup (IF e.changed = 1 THEN {"caller_data_modified"} ELSE {})]
ReadFails(s, sc, c, e) ==
   LET w == s.files[Key(c)] IN
   IF w.call = 0 THEN (IF e.absent = 1 THEN {} ELSE {"file_from_nowhere"})
   ELSE IF e.absent = 1 THEN {"file_missing"}
   ELSE LET cc == sc.calls[w.call] IN ContentFails(cc, sc.meshes[cc.mesh], e)
ModFails(c, e) == (IF e.out # Text(c.toks, Conv, 1) THEN {"converted_text"} ELSE {})
                  \cup (IF c.same = 0 /\ e.inp # Text(c.toks, Tok, 1) THEN {"source_file_changed"} ELSE {})
AbFails(sc, c, e) == LET m == sc.meshes[c.mesh] IN
   PtsFails(m, e.pts) \cup (IF e.cell_type # CellName(m.et) \/ e.cells # m.cells THEN {"cells"} ELSE {})
   \cup (IF e.kept = 0 THEN {"source_file_changed"} ELSE {})
TimedFails(c, e) ==
   (IF e.calls # c.times THEN {"wrapped_call_count"} ELSE {})
   \cup (IF e.seen # <<c.args[1], c.args[2], c.kw>> THEN {"wrapped_arguments"} ELSE {})
   \cup (IF c.raises = 1 THEN (IF e.result # "raised" THEN {"wrapped_exception_lost"} ELSE {})
         ELSE IF e.result # "same" THEN {"wrapped_result"} ELSE {})
   \cup (IF c.wrap = "walltime" /\ c.txt = 1 /\ c.raises = 0
         THEN (IF e.files # 1 THEN {"timing_file"} ELSE IF e.name # (IF c.fname = "" THEN "walltime_cpu.txt" ELSE c.fname \o "_cpu.txt") THEN {"timing_file"}
               ELSE IF Len(e.line) # 3 THEN {"timing_file"}
               ELSE IF Abs((e.line[2] - e.line[1]) - e.line[3]) > 2 \/ e.line[3] < 15 \/ e.line[3] > 60000 THEN {"timing_values"} ELSE {})
         ELSE IF e.files # 0 THEN {"timing_file"} ELSE {})
Other(s, sc, c, e) ==
  CASE e.op # c.op -> {"unexpected_event"}
    [] e.op = "read" -> ReadFails(s, sc, c, e)
    [] e.op = "modify" -> ModFails(c, e)
    [] e.op = "abaqus" -> AbFails(sc, c, e)
    [] e.op = "json" -> IF e.data # c.data THEN {"parsed_data"} ELSE {}
    [] e.op = "timed" -> TimedFails(c, e)
    [] OTHER -> {"unexpected_event"}
MyApply(s, sc, e) == IF e.op = "error" \/ s.n > Len(sc.calls) THEN Out(s, {"unexpected_event"})
   ELSE LET c == sc.calls[s.n] IN IF e.op = "save" /\ c.op = "save" THEN ApplySave(s, sc, c, e) ELSE Out(s, Other(s, sc, c, e))
=============================================================================
