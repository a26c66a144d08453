----------------------------- MODULE TraceBack -----------------------------
(* Recorded conversions of html code into a markup, which was then read back by a reader of that markup.
   A record: [in, target, exc, out, noise, warn, html]
   html is what the reader makes of the markup, warn whether it complains *)
EXTENDS Meaning, Json, IOUtils

VARIABLE rec
Recs == ndJsonDeserialize(IOEnv.TRACE)
N == Len(Recs)
CHAINS == 64

Init == rec \in 1..Min2(CHAINS, N)
Next == rec + CHAINS <= N /\ rec' = rec + CHAINS

Judge(r) ==
  IF r.exc # "" THEN "exception"
  ELSE IF r.noise THEN "noise"
  ELSE IF r.warn THEN "not accepted by the reader"
  ELSE IF Meaning(r.in) # Meaning(r.html) THEN "another document"
  ELSE "ok"

Check ==
  LET r == Recs[rec]
      v == Judge(r)
  IN IF v = "ok" THEN TRUE
     ELSE PrintT("MISMATCH " \o ToJson([id |-> r.id, verdict |-> v, want |-> Show(Meaning(r.in)), have |-> Show(Meaning(r.html))]))
=============================================================================
