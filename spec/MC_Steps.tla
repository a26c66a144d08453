------------------------------ MODULE MC_Steps ------------------------------
(***************************************************************************)
(* One conversion, step by step.  It always ends (every step makes the     *)
(* measure smaller; and, under weak fairness, as a temporal property), and *)
(* with the result the specification as a function gives.                  *)
(* The JSON file PLAN: [frags: texts, max, calls: the options]: every      *)
(* document of exactly so many of the fragments, or fewer.                 *)
(***************************************************************************)
EXTENDS Conversions, TLC, SequencesExt, Json, IOUtils

Plan == JsonDeserialize(IOEnv.PLAN)
VARIABLES call, conv
vars == << call, conv >>

Docs == UNION {[1..n -> 1..Len(Plan.frags)] : n \in 0..Plan.max}
Source(d) == FlattenSeq([i \in 1..Len(d) |-> Plan.frags[d[i]]])
CallNo(i) == Plan.calls[i]

Init == /\ \E d \in Docs, i \in 1..Len(Plan.calls) : call = [CallNo(i) EXCEPT !.in = Source(d)]
        /\ conv = StartOf(call)
Next == ~Done(conv) /\ conv' = StepOf(conv) /\ UNCHANGED call
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

RightResult == Done(conv) => ResultIsRight(call, conv)
Progress == [][Measure(conv') < Measure(conv) /\ Measure(conv') >= 0]_vars
Ends == <>Done(conv)
=============================================================================
