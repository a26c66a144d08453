------------------------------ MODULE MC_Creole ------------------------------
(***************************************************************************)
(* A user types a document: every document that can be put together from   *)
(* the given fragments, up to the given number of them, under each of the  *)
(* given options.  The properties are invariants over (document, html      *)
(* code); every state is printed and replayed against the real code.       *)
(*                                                                         *)
(* The JSON file PLAN: [frags: texts, max, envs: [blog, macros, verbose,   *)
(* strict], emit: BOOLEAN]                                                 *)
(***************************************************************************)
EXTENDS CreoleDoc, Markup, Json, IOUtils

Plan == JsonDeserialize(IOEnv.PLAN)
NFrags == Len(Plan.frags)
EnvNo(i) == LET e == Plan.envs[i] IN
  [blog |-> e.blog, macros |-> e.macros, verbose |-> e.verbose, strict |-> e.strict, asis |-> FALSE]

VARIABLES typed, option     \* the fragments so far; the option set

mvars == << typed, option >>

Source == FlattenSeq([i \in 1..Len(typed) |-> Plan.frags[typed[i]]])
Html == CreoleToHtml(Source, EnvNo(option))

Start == typed = << >> /\ option \in 1..Len(Plan.envs)
Type == /\ Len(typed) < Plan.max
        /\ \E f \in 1..NFrags : typed' = Append(typed, f)
        /\ UNCHANGED option

------------------------------------------------------------------ (* properties *)
HasHtmlMacro == HasText(Source, T("<<html"))
NoMacros == ~HasText(Source, PM) /\ ~HasText(Source, T("<<"))

(* the whole conversion, evaluated once per state *)
Properties ==
  LET r == Html
      toks == Lex(r.html)
      wf == HasHtmlMacro \/ WellFormed(toks) \/ (HasText(Source, T("<<toc")) /\ Balanced(toks))  \* a toc may skip a level
      safe == HasHtmlMacro \/ Safe(toks)
      words == ~NoMacros \/ IsSubseq(Alnums(NormEol(Source)), Alnums(AllText(toks)))
      total == ~r.raised \/ Plan.envs[option].verbose > 2
  IN /\ (IF wf THEN TRUE ELSE PrintT(<< "NOT WELL FORMED", typed >>) /\ FALSE)
     /\ (IF safe THEN TRUE ELSE PrintT(<< "NOT SAFE", typed >>) /\ FALSE)
     /\ (IF words THEN TRUE ELSE PrintT(<< "TEXT LOST", typed >>) /\ FALSE)
     /\ (IF total THEN TRUE ELSE PrintT(<< "NO RESULT", typed >>) /\ FALSE)
     /\ (IF ~Plan.emit THEN TRUE ELSE PrintT("CASE " \o ToJson([t |-> typed, o |-> option, out |-> r.html, exc |-> r.raised, err |-> r.err])))

Init == Start
Next == Type
=============================================================================
