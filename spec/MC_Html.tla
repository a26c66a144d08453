------------------------------- MODULE MC_Html -------------------------------
(***************************************************************************)
(* A user types html: every document that can be put together from the     *)
(* given fragments, up to the given number of them, for each target and    *)
(* policy.  The properties are invariants; every state is printed and      *)
(* replayed against the real code.                                         *)
(*                                                                         *)
(* The JSON file PLAN: [frags: texts, max, cfs: [target, strict, policy],  *)
(* block: the numbers of the block tags among the fragments,               *)
(* space: the numbers of the whitespace fragments]                         *)
(* In the fragments capital letters are used only for text that is shown.  *)
(***************************************************************************)
EXTENDS Emitters, Markup, Json, IOUtils

Plan == JsonDeserialize(IOEnv.PLAN)
NFrags == Len(Plan.frags)
CfNo(i) == LET c == Plan.cfs[i] IN [target |-> c.target, strict |-> c.strict, policy |-> c.policy, asis |-> FALSE]
BlockNos == {Plan.block[i] : i \in 1..Len(Plan.block)}
SpaceNos == {Plan.space[i] : i \in 1..Len(Plan.space)}

VARIABLES typed, option

Init == typed = << >> /\ option \in 1..Len(Plan.cfs)
Next == /\ Len(typed) < Plan.max
        /\ \E f \in 1..NFrags : typed' = Append(typed, f)
        /\ UNCHANGED option

SourceOf(t) == FlattenSeq([i \in 1..Len(t) |-> Plan.frags[t[i]]])

------------------------------------------------------------ (* properties *)
Shown(s) == SelectSeq(s, IsUpper)

(* the text is kept, in order *)
KeepsText(r, cf) ==
  LET shown == Shown(SourceOf(typed))
  IN IF cf.target = "rest" THEN IsSubseq(shown, Shown(r.out)) ELSE Shown(r.out) = shown

(* only refusals *)
Ends(r, cf) == r.exc = "" \/ cf.policy = "raise" \/ cf.target = "rest"

(* whitespace between block tags means nothing *)
Edge(i) == i = 0 \/ i > Len(typed) \/ typed[i] \in BlockNos
Before(i) == CHOOSE k \in 0..(i - 1) : (k = 0 \/ typed[k] \notin SpaceNos) /\ \A j \in (k + 1)..(i - 1) : typed[j] \in SpaceNos
After(i) == CHOOSE k \in (i + 1)..(Len(typed) + 1) : (k > Len(typed) \/ typed[k] \notin SpaceNos) /\ \A j \in (i + 1)..(k - 1) : typed[j] \in SpaceNos
Needless(i) == typed[i] \in SpaceNos /\ Edge(Before(i)) /\ Edge(After(i))
Tight == LET keep == SelectSeq([i \in 1..Len(typed) |-> i], LAMBDA i : ~Needless(i)) IN [k \in 1..Len(keep) |-> typed[keep[k]]]
SpaceFree(r, cf) == Tight = typed \/ HtmlTo(SourceOf(Tight), cf) = r

Properties ==
  LET cf == CfNo(option)
      r == HtmlTo(SourceOf(typed), cf)
      as == HtmlTo(SourceOf(typed), [cf EXCEPT !.asis = TRUE])     \* with the known findings
      keeps == r.exc # "" \/ cf.policy = "raise" \/ KeepsText(r, cf)
  IN /\ (IF keeps THEN TRUE ELSE PrintT(<< "TEXT LOST", cf.target, typed >>) /\ FALSE)
     /\ (IF Ends(r, cf) THEN TRUE ELSE PrintT(<< "NO RESULT", typed >>) /\ FALSE)
     /\ (IF SpaceFree(r, cf) THEN TRUE ELSE PrintT(<< "SPACE", cf.target, typed >>) /\ FALSE)
     /\ PrintT("CASE " \o ToJson([t |-> typed, o |-> option, out |-> as.out, exc |-> as.exc, known |-> as # r]))
=============================================================================
