---------------------------- MODULE JudgeCreole ----------------------------
(* A recorded conversion of creole by the real code against the specification.
   A record: [in, blog, macros, verbose, strict, exc, out, err, noise, judge]
   judge: what of the result is compared
     "all"    the html code, exceptions, and whether something was written to stderr
     "total"  only whether there is a result
     "ends"   the same, for settings which let no macro raise (with less than the highest verbosity)
     "text"   the text and the attribute values, and the tags
     "safe"   the same, and that only Creole's tags are used
     "wf"     whether the html code is well formed
     "quiet"  only whether there is a result and whether something was written to stderr *)
EXTENDS CreoleDoc, Match, Markup

EnvOf(r) == [blog |-> r.blog, macros |-> r.macros, verbose |-> r.verbose, strict |-> r.strict, asis |-> FALSE,
             codes |-> IF r.macros = "example" THEN r.codes ELSE << >>]

JudgeTags(r, html, want, safe) ==
  LET real == Lex(r.out)
  IN IF ~Lexable(want) THEN IF Matches(r.out, html) THEN "ok" ELSE "output"     \* html code of the author
     ELSE IF ~Lexable(real) THEN "no markup"
     ELSE IF safe /\ Safe(want) /\ ~Safe(real) THEN "not safe"
     ELSE IF Structure(real) # Structure(want) THEN "structure"
     ELSE IF ~Matches(AllText(real), AllText(want)) THEN "text"
     ELSE "ok"

JudgeNesting(real, want) ==
  IF WellFormed(real) \/ ~Balanced(want) \/ (~WellFormed(want) /\ Balanced(real)) THEN "ok" ELSE "not well formed"

Judge(r, c) ==
  IF c.raised # (r.exc # "") THEN "exception"
  ELSE IF r.noise THEN "noise"
  ELSE IF c.raised \/ r.judge = "total" THEN "ok"
  ELSE IF r.judge = "quiet" THEN IF c.err # r.err THEN "stderr" ELSE "ok"
  ELSE IF r.judge = "all" THEN
    IF ~Matches(r.out, c.html) THEN "output" ELSE IF c.err # r.err THEN "stderr" ELSE "ok"
  ELSE IF r.judge = "wf" THEN JudgeNesting(Lex(r.out), Lex(c.html))
  ELSE JudgeTags(r, c.html, Lex(c.html), r.judge = "safe")

(* the result is exactly what the listed defects make of it *)
IsKnown(r, c) ==
  LET as == CreoleToHtml(r.in, [EnvOf(r) EXCEPT !.asis = TRUE])
  IN as.html # c.html /\ Judge([r EXCEPT !.judge = "all"], as) = "ok"

Want(r) == CreoleToHtml(r.in, EnvOf(r))
Verdict(r) ==
  IF r.judge = "ends" THEN IF r.exc # "" THEN "exception" ELSE IF r.noise THEN "noise" ELSE "ok"
  ELSE Judge(r, Want(r))
IsListed(r) == r.judge # "ends" /\ IsKnown(r, Want(r))
=============================================================================
