------------------------------ MODULE GenBase ------------------------------
(* Scenario generators EXTEND this and state ASSUME Emit(<set of records>).  *)
EXTENDS Num, Json, IOUtils
LOCAL INSTANCE SequencesExt
Thorough == IOEnv.TIER = "thorough"
SEED == atoi(IOEnv.SEED)
Emit(S) == JsonSerialize(IOEnv.OUT, SetToSeq(S))
EmitSeq(s) == JsonSerialize(IOEnv.OUT, s)
=============================================================================
