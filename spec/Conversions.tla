---------------------------- MODULE Conversions ----------------------------
(* any conversion as a transition system, and as a function *)
EXTENDS Integers, Sequences

C == INSTANCE Creole
H == INSTANCE Html2x

(* a call: [fn |-> "creole", in, blog, macros, verbose, strict] or [fn |-> "html", in, target, strict, policy] *)
EnvOf(c) == [blog |-> c.blog, macros |-> c.macros, verbose |-> c.verbose, strict |-> c.strict, asis |-> FALSE]
CfOf(c) == [target |-> c.target, strict |-> c.strict, policy |-> c.policy, asis |-> FALSE]

StartOf(c) == IF c.fn = "creole" THEN C!CreoleStart(c.in, EnvOf(c)) ELSE H!HtmlStart(c.in, CfOf(c))
StepOf(s) == IF s.fn = "creole" THEN C!CreoleStep(s) ELSE H!HtmlStep(s)
Measure(s) == IF s.fn = "creole" THEN C!CreoleMeasure(s) ELSE H!HtmlMeasure(s)
Done(s) == s.phase = "done"

(* the result, and what it should be: a function of the call *)
ResultIsRight(c, s) ==
  IF c.fn = "creole" THEN C!CreoleResult(s) = C!CreoleToHtml(c.in, EnvOf(c)) ELSE s.res = H!HtmlTo(c.in, CfOf(c))
OutcomeOf(s) ==
  IF s.fn = "creole" THEN [raised |-> s.tc.raised, out |-> s.html] ELSE [raised |-> s.res.exc # "", out |-> s.res.out]
=============================================================================
