------------------------------- MODULE MC_Cli -------------------------------
(***************************************************************************)
(* Every history of up to so many calls of the command line tools, from    *)
(* the given files.  The JSON file PLAN: [files: name -> bytes,            *)
(* ops: << [tool, src, dst, enc] >>, max].                                 *)
(***************************************************************************)
EXTENDS Cli, Json, IOUtils

Plan == JsonDeserialize(IOEnv.PLAN)
VARIABLES files, called, oks

vars == << files, called, oks >>
Init == files = [f \in DOMAIN Plan.files |-> Plan.files[f]] /\ called = << >> /\ oks = << >>
Call(i) == LET r == Run(files, Plan.ops[i], FALSE) IN
           /\ files' = r.files /\ called' = Append(called, i) /\ oks' = Append(oks, r.ok)
Next == Len(called) < Plan.max /\ \E i \in 1..Len(Plan.ops) : Call(i)
Spec == Init /\ [][Next]_vars

------------------------------------------------------------ (* properties *)
Op == Plan.ops[called'[Len(called')]]
Ok == oks'[Len(oks')]

(* nothing is ever removed, and only the destination of a call changes *)
OnlyTheDestination == [][\A f \in DOMAIN files : f \in DOMAIN files' /\ (f = Op.dst \/ files'[f] = files[f])]_vars
OnlyOneNewFile == [][DOMAIN files' \subseteq DOMAIN files \cup {Op.dst}]_vars
(* a refused call changes nothing *)
RefusedChangesNothing == [][Ok \/ files' = files]_vars
(* the same call again gives the same file *)
Repeatable == [][(Ok /\ Op.src # Op.dst) => Run(files', Op, FALSE) = [ok |-> TRUE, files |-> files']]_vars

Emit == called = << >> \/ PrintT("CASE " \o ToJson([t |-> called, oks |-> oks, files |-> files]))
=============================================================================
