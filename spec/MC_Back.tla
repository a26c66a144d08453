------------------------------ MODULE MC_Back ------------------------------
(***************************************************************************)
(* There and back: html code is converted into a markup, and the markup is *)
(* read back.  Every document of up to so many of the given blocks (or     *)
(* pieces of one block) is converted.  For Creole the way back is          *)
(* creole2html, so it is specified here: the document means the same.      *)
(* For the other markups the readers are other programs; these documents   *)
(* are read back by them when the states are replayed.                     *)
(*                                                                         *)
(* PLAN: [frags: texts, max, before, after: texts around them, join: text, *)
(*        target, apart: numbers of fragments which don't follow others of *)
(*        them, inner: fragments neither at the start nor the end]         *)
(***************************************************************************)
EXTENDS Meaning, Json, IOUtils

C == INSTANCE Creole
H == INSTANCE Html2x

Plan == JsonDeserialize(IOEnv.PLAN)

VARIABLE typed

Apart == {Plan.apart[i] : i \in 1..Len(Plan.apart)}
Inner == {Plan.inner[i] : i \in 1..Len(Plan.inner)}

Init == \E f \in (1..Len(Plan.frags)) \ Inner : typed = << f >>
Next == /\ Len(typed) < Plan.max
        /\ \E f \in 1..Len(Plan.frags) : ~({f, typed[Len(typed)]} \subseteq Apart) /\ typed' = Append(typed, f)

Source == Plan.before \o Join([i \in 1..Len(typed) |-> Plan.frags[typed[i]]], Plan.join) \o Plan.after
Cf == [target |-> Plan.target, strict |-> FALSE, policy |-> "none", asis |-> FALSE]
Env == [blog |-> TRUE, macros |-> "none", verbose |-> 1, strict |-> FALSE, asis |-> FALSE]

SameMeaning ==
  IF typed[Len(typed)] \in Inner THEN TRUE ELSE
  LET there == H!HtmlTo(Source, Cf).out
      want == Meaning(Source)
      have == Meaning(C!CreoleToHtml(there, Env).html)
  IN /\ (IF Plan.target # "creole" THEN TRUE
         ELSE IF want = have THEN TRUE ELSE PrintT("DIFFER " \o ToJson([there |-> there, want |-> Show(want), have |-> Show(have)])) /\ FALSE)
     /\ PrintT("CASE " \o ToJson([t |-> typed, out |-> there]))
=============================================================================
