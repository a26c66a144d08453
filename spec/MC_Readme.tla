------------------------------ MODULE MC_Readme ------------------------------
(***************************************************************************)
(* Every history of up to so many edits of the source, updates and         *)
(* assertions.  The JSON file PLAN: [names, files: name -> bytes,           *)
(* ops: << operations as in Readme >>, max].                               *)
(***************************************************************************)
EXTENDS Readme, Json, IOUtils

Plan == JsonDeserialize(IOEnv.PLAN)
VARIABLES files, called, oks

vars == << files, called, oks >>
Names == Plan.names
Init == files = [f \in DOMAIN Plan.files |-> Plan.files[f]] /\ called = << >> /\ oks = << >>
Call(i) == LET r == Do(files, Names, Plan.ops[i], FALSE) IN
           /\ files' = r.files /\ called' = Append(called, i) /\ oks' = Append(oks, r.ok)
Next == Len(called) < Plan.max /\ \E i \in 1..Len(Plan.ops) : Call(i)
Spec == Init /\ [][Next]_vars

------------------------------------------------------------ (* properties *)
Op == Plan.ops[called'[Len(called')]]
Ok == oks'[Len(oks')]
Of(kind) == IF kind = "rst" THEN Names.rst ELSE Names.md
Same(f) == (f \in DOMAIN files) = (f \in DOMAIN files') /\ (f \in DOMAIN files => files'[f] = files[f])

(* only the user changes the source *)
SourceIsTheUsers == [][Op.op \notin {"edit", "remove"} => Same(Names.creole)]_vars
(* an update of one README leaves the other alone *)
OtherUntouched == [][(Op.op \in {"update", "assert", "describe"}) =>
                       \A f \in {Names.rst, Names.md} : (Op.op = "update" /\ f = Of(Op.kind)) \/ Same(f)]_vars
(* after an update the assertion succeeds, and a further update changes nothing *)
UpdateMakesUpToDate ==
  [][(Op.op = "update" /\ Ok) =>
       AssertUpToDate(files', Names, Op, FALSE).ok /\ Update(files', Names, Op, FALSE).files = files']_vars
(* an assertion that succeeds: the file is what an update would write, up to the note *)
AssertionIsRight ==
  [][(Op.op = "assert" /\ Ok) => Update(files', Names, Op, FALSE).files = files']_vars
(* an edit that changes the generated text makes the assertion fail until the next update *)
EditMakesStale ==
  [][(Op.op = "edit" /\ Op.name = Names.creole) =>
       \A k \in {"rst", "md"} :
         LET a == [op |-> "assert", kind |-> k, valid |-> TRUE]
             was == Generated(files, Names, k, FALSE)
             is == Generated(files', Names, k, FALSE)
         IN (AssertUpToDate(files, Names, a, FALSE).ok /\ (~is.ok \/ is.v # was.v)) => ~AssertUpToDate(files', Names, a, FALSE).ok]_vars

Emit == called = << >> \/ PrintT("CASE " \o ToJson([t |-> called, oks |-> oks, files |-> files]))
=============================================================================
