-------------------------------- MODULE Trace --------------------------------
(* Trace validation: every recorded call must be one the specification allows. Rejected calls are
   reported and the trace continues, so that one run reports all of them. *)
EXTENDS Conform, Json, IOUtils

Events == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE i
Init == i = atoi(IOEnv.START)
Judge(k) == IF Conforms(Events[k]) THEN TRUE ELSE PrintT(<<"REJECT", k>>)
Next == i <= Len(Events) /\ Judge(i) /\ i' = i + 1
Done == i > Len(Events) /\ PrintT(<<"CONSUMED", i>>)
Explain == PrintT(<<"EXPECT", ToJson(Expect(Events[i]))>>)
ExplainNext == i <= Len(Events) /\ Explain /\ i' = Len(Events) + 1
=============================================================================
