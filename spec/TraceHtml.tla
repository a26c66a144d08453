------------------------------ MODULE TraceHtml ------------------------------
(* Recorded conversions of html by the real code, checked against the specification: see JudgeHtml *)
EXTENDS JudgeHtml, Json, IOUtils

VARIABLE rec
Recs == ndJsonDeserialize(IOEnv.TRACE)
N == Len(Recs)
CHAINS == 64            \* so that the workers of TLC share the records

Init == rec \in 1..Min2(CHAINS, N)
Next == rec + CHAINS <= N /\ rec' = rec + CHAINS

Check ==
  LET r == Recs[rec]
      want == Want(r)
      v == Verdict(r)
  IN IF v = "ok" THEN TRUE
     ELSE PrintT("MISMATCH " \o ToJson([id |-> r.id, verdict |-> v, known |-> IsListed(r), out |-> IF v = "exception" THEN << >> ELSE want.out, exc |-> IF r.judge = "ends" THEN "" ELSE want.exc]))
=============================================================================
