----------------------------- MODULE TraceBase -----------------------------
(* Trace acceptance with total verdicts.  Every recorded scenario (one line *)
(* of the trace file) is an initial state; each recorded event is one step; *)
(* Apply(st, sc, ev) is the specification's transition for that event and   *)
(* yields the next abstract state and the set of clauses the event breaks.  *)
EXTENDS Integers, Sequences, TLC, Json, IOUtils
CONSTANTS InitSt(_), Apply(_,_,_)
VARIABLES sid, l, st
vars == <<sid, l, st>>
T == ndJsonDeserialize(IOEnv.TRACE)
Init == /\ sid \in 1..Len(T) /\ l = 1 /\ st = InitSt(T[sid].sc)
Next == /\ l <= Len(T[sid].ev)
        /\ \E r \in {Apply(st, T[sid].sc, T[sid].ev[l])} :
             /\ IF r.fails = {} THEN TRUE ELSE PrintT(<<"FAIL", sid, l, r.fails>>)
             /\ st' = r.st
        /\ l' = l + 1 /\ UNCHANGED sid
Spec == Init /\ [][Next]_vars
=============================================================================
