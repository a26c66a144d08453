----------------------------- MODULE MC_History -----------------------------
(***************************************************************************)
(* Conversions in several threads: every schedule of their steps with a    *)
(* bounded number of switches.  Each schedule is printed, and replayed on  *)
(* the real code.                                                          *)
(* The JSON file PLAN: [calls: << a call for each thread >>, switches]     *)
(***************************************************************************)
EXTENDS Conversions, TLC, Json, IOUtils

Plan == JsonDeserialize(IOEnv.PLAN)
NThreads == Len(Plan.calls)

VARIABLES convs, sched, switches
vars == << convs, sched, switches >>

Init == convs = [i \in 1..NThreads |-> StartOf(Plan.calls[i])] /\ sched = << >> /\ switches = 0
Step(i) ==
  LET new == sched # << >> /\ sched[Len(sched)] # i IN
  /\ ~Done(convs[i])
  /\ switches' = switches + (IF new /\ ~Done(convs[sched[Len(sched)]]) THEN 1 ELSE 0)
  /\ switches' <= Plan.switches
  /\ convs' = [convs EXCEPT ![i] = StepOf(@)]
  /\ sched' = Append(sched, i)
Next == \E i \in 1..NThreads : Step(i)
Spec == Init /\ [][Next]_vars

AllDone == \A i \in 1..NThreads : Done(convs[i])
(* whatever happens in between, the result of a conversion is a function of its call *)
Independent == \A i \in 1..NThreads : Done(convs[i]) => ResultIsRight(Plan.calls[i], convs[i])
(* a step of one conversion leaves the others alone *)
NoInterference == [][\A i \in 1..NThreads : i = sched'[Len(sched')] \/ convs'[i] = convs[i]]_vars
(* a schedule can always be completed *)
Emit == ~AllDone \/ PrintT("CASE " \o ToJson([sched |-> sched, res |-> [i \in 1..NThreads |-> OutcomeOf(convs[i])]]))
=============================================================================
