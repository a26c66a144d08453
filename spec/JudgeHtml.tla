----------------------------- MODULE JudgeHtml -----------------------------
(* A recorded conversion of html by the real code against the specification.
   A record: [in, target, strict, policy, judge, exc, out, noise]
   judge: what of the result is compared
     "all"    the markup and the kind of the exception
     "total"  only whether there is a result
     "ends"   whether there is a result, or a refusal because of two meanings of a ReStructuredText reference
     "words"  the characters of words, in order *)
EXTENDS Emitters, Markup

CfOf(r) == [target |-> r.target, strict |-> r.strict, policy |-> r.policy, asis |-> FALSE]

Judge(r, want) ==
  IF want.exc # r.exc THEN "exception"
  ELSE IF r.noise THEN "noise"
  ELSE IF want.exc # "" \/ r.judge = "total" THEN "ok"
  ELSE IF r.judge = "words" THEN IF Words(want.out) = Words(r.out) THEN "ok" ELSE "text"
  ELSE IF want.out # r.out THEN "output"
  ELSE "ok"

(* the result is exactly what the listed defects make of it *)
IsKnown(r, want) ==
  LET as == HtmlTo(r.in, [CfOf(r) EXCEPT !.asis = TRUE])
  IN as # want /\ Judge([r EXCEPT !.judge = "all"], as) = "ok"

Want(r) == HtmlTo(r.in, CfOf(r))
Verdict(r) ==
  IF r.judge = "ends"
  THEN IF r.exc # "" /\ (r.target # "rest" \/ r.exc # "Html2restException") THEN "exception" ELSE IF r.noise THEN "noise" ELSE "ok"
  ELSE Judge(r, Want(r))
IsListed(r) == r.judge # "ends" /\ IsKnown(r, Want(r))
=============================================================================
