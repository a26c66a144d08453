------------------------------ MODULE TraceCli ------------------------------
(* Recorded histories of calls of the command line tools.
   A record: [id, files: name -> bytes, ops: << [tool, src, dst, enc] >>,
              seen: << [ok, files] >>: what was there after each call] *)
EXTENDS Cli, Json, IOUtils

VARIABLE rec
Recs == ndJsonDeserialize(IOEnv.TRACE)
N == Len(Recs)
CHAINS == 64

Init == rec \in 1..Min2(CHAINS, N)
Next == rec + CHAINS <= N /\ rec' = rec + CHAINS

AsFiles(x) == [f \in DOMAIN x |-> x[f]]

(* the number of the first call that did something else, 0 if there is none *)
Judge(r, asis) ==
  LET Step(acc, i) ==
        LET want == Run(acc.files, r.ops[i], asis)
            seen == r.seen[i]
            v == IF want.ok # seen.ok THEN IF want.ok THEN "refused" ELSE "not refused"
                 ELSE IF \E f \in DOMAIN acc.files : f # r.ops[i].dst /\ (f \notin DOMAIN seen.files \/ seen.files[f] # acc.files[f])
                      THEN "other file changed"
                 ELSE IF AsFiles(seen.files) # want.files THEN IF want.ok THEN "content" ELSE "file changed by a refused call"
                 ELSE "ok"
        IN IF acc.bad # 0 THEN acc
           ELSE IF v # "ok" THEN [acc EXCEPT !.bad = i, !.verdict = v]
           ELSE [acc EXCEPT !.files = want.files]
  IN FoldLeft(Step, [files |-> AsFiles(r.files), bad |-> 0, verdict |-> "ok"], [i \in 1..Len(r.ops) |-> i])

Check ==
  LET r == Recs[rec]
      j == Judge(r, FALSE)
  IN IF j.bad = 0 THEN TRUE
     ELSE PrintT("MISMATCH " \o ToJson([id |-> r.id, verdict |-> j.verdict, known |-> Judge(r, TRUE).bad = 0, call |-> j.bad]))
=============================================================================
