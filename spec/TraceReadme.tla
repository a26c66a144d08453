---------------------------- MODULE TraceReadme ----------------------------
(* Recorded histories of the README functions.
   A record: [id, names, files, ops, seen: << [ok, files, wrote, text, stale] >>] *)
EXTENDS Readme, Match, Json, IOUtils

VARIABLE rec
Recs == ndJsonDeserialize(IOEnv.TRACE)
N == Len(Recs)
CHAINS == 64

Init == rec \in 1..Min2(CHAINS, N)
Next == rec + CHAINS <= N /\ rec' = rec + CHAINS

AsFiles(x) == [f \in DOMAIN x |-> x[f]]
AsSet(s) == {s[i] : i \in 1..Len(s)}

Judge(r, asis) ==
  LET Step(acc, i) ==
        LET want == Do(acc.files, r.names, r.ops[i], asis)
            seen == r.seen[i]
            v == IF want.ok # seen.ok THEN IF want.ok THEN "refused" ELSE "not refused"
                 ELSE IF AsFiles(seen.files) # want.files THEN IF want.ok THEN "content" ELSE "file changed by a refused call"
                 ELSE IF r.ops[i].op \in {"update", "assert"} /\ (AsSet(seen.wrote) \ {r.names.html}) # (want.wrote \ {r.names.html}) THEN "needless or missing write"
                 ELSE IF want.stale /\ ~seen.stale THEN "not an AssertionError"
                 ELSE IF want.ok /\ ~Matches(seen.text, want.text) THEN "text"
                 ELSE "ok"
        IN IF acc.bad # 0 THEN acc
           ELSE IF v # "ok" THEN [acc EXCEPT !.bad = i, !.verdict = v]
           ELSE [acc EXCEPT !.files = want.files]
  IN FoldLeft(Step, [files |-> AsFiles(r.files), bad |-> 0, verdict |-> "ok"], [i \in 1..Len(r.ops) |-> i])

Check ==
  LET r == Recs[rec]
      j == Judge(r, FALSE)
  IN IF j.bad = 0 THEN TRUE
     ELSE PrintT("MISMATCH " \o ToJson([id |-> r.id, verdict |-> j.verdict, known |-> Judge(r, TRUE).bad = 0, call |-> j.bad]))
=============================================================================
