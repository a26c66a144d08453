---------------------------- MODULE TraceHistory ----------------------------
(***************************************************************************)
(* Recorded histories of conversions: one after the other, in several      *)
(* threads, or inside of each other (a macro or the handler of unknown     *)
(* tags converts something).  Two kinds of events: a call begins, a call   *)
(* ends; its result has to be what the call alone gives, whichever calls   *)
(* were made before or are still open.                                     *)
(* A record: [id, calls: << records as in JudgeCreole and JudgeHtml >>,    *)
(* events: << << "begin" or "end", number of the call >> >>, given: the    *)
(* objects the calls were given are as before, noise]                      *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt, Json, IOUtils

JC == INSTANCE JudgeCreole
JH == INSTANCE JudgeHtml

VARIABLE rec
Recs == ndJsonDeserialize(IOEnv.TRACE)
N == Len(Recs)
CHAINS == 64

Init == rec \in 1..(IF N < CHAINS THEN N ELSE CHAINS)
Next == rec + CHAINS <= N /\ rec' = rec + CHAINS

VerdictOf(c) == IF c.fn = "creole" THEN JC!Verdict(c) ELSE JH!Verdict(c)
KnownOf(c) == IF c.fn = "creole" THEN JC!IsListed(c) ELSE JH!IsListed(c)

(* the machine: which calls are open, and the first thing that is wrong *)
Event(r, st, e) ==
  LET i == e[2] IN
  IF st.verdict # "ok" THEN st
  ELSE IF e[1] = "begin" THEN
    [st EXCEPT !.open = @ \cup {i}, !.verdict = IF i \in st.open \cup st.done THEN "begins twice" ELSE "ok"]
  ELSE
    LET v == IF i \notin st.open THEN "ends twice" ELSE VerdictOf(r.calls[i]) IN
    [st EXCEPT !.open = @ \ {i}, !.done = @ \cup {i}, !.call = i,
               !.verdict = IF v = "ok" \/ (i \in st.open /\ KnownOf(r.calls[i])) THEN "ok" ELSE v,
               !.known = @ \/ v # "ok"]

Judge(r) ==
  LET st == FoldLeft(LAMBDA s, e : Event(r, s, e), [open |-> {}, done |-> {}, verdict |-> "ok", call |-> 0, known |-> FALSE], r.events)
  IN IF st.verdict # "ok" THEN st
     ELSE IF st.open # {} THEN [st EXCEPT !.verdict = "does not end"]
     ELSE IF ~r.given THEN [st EXCEPT !.verdict = "a given object was changed"]
     ELSE IF r.noise THEN [st EXCEPT !.verdict = "noise"]
     ELSE st

Check ==
  LET j == Judge(Recs[rec]) IN
  IF j.verdict = "ok" /\ ~j.known THEN TRUE
  ELSE PrintT("MISMATCH " \o ToJson([id |-> Recs[rec].id, verdict |-> j.verdict, call |-> j.call, known |-> j.verdict = "ok"]))
=============================================================================
