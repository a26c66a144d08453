------------------------------ MODULE TraceRest ------------------------------
(* Recorded calls of rest2html and pypi_rest2html.
   A record: [call, src, std: [exc, out, uris], exc, out, noise, raw]
   std is what docutils makes of the text on its own, with the same settings. *)
EXTENDS Rest, Json, IOUtils

VARIABLE rec
Recs == ndJsonDeserialize(IOEnv.TRACE)
N == Len(Recs)
CHAINS == 64

Init == rec \in 1..Min2(CHAINS, N)
Next == rec + CHAINS <= N /\ rec' = rec + CHAINS

JudgeClean(r) ==
  LET toks == TokensOf(r.out)
      want == Shown(r.std.out)
      have == Shown(r.out)
  IN IF r.exc # r.std.exc THEN "exception"
     ELSE IF r.exc # "" THEN "ok"
     ELSE IF want # have THEN "not the document"
     ELSE IF r.raw THEN "ok"
     ELSE IF HasWrapper(toks) THEN "leftover tag"
     ELSE IF HasStyle(toks) THEN "style attribute"
     ELSE IF ~RestBalanced(toks) THEN "not balanced"
     ELSE "ok"

JudgePypi(r) ==
  LET refused == r.std.exc # "" \/ ~AllowedUris(r.std.uris)
  IN IF refused # (r.exc # "") THEN IF refused THEN "not refused" ELSE "refused"
     ELSE IF ~refused /\ r.out # r.std.out THEN "not the document"
     ELSE "ok"

Judge(r) == IF r.call = "clean" THEN JudgeClean(r) ELSE JudgePypi(r)

Check ==
  LET r == Recs[rec]
      v == Judge(r)
  IN IF v = "ok" THEN TRUE
     ELSE PrintT("MISMATCH " \o ToJson([id |-> r.id, verdict |-> v,
                                        want |-> IF r.call = "clean" /\ v = "not the document" THEN Shown(r.std.out) ELSE << >>,
                                        have |-> IF r.call = "clean" /\ v = "not the document" THEN Shown(r.out) ELSE << >>]))
=============================================================================
