------------------------------- MODULE Creole -------------------------------
(***************************************************************************)
(* creole2html as a transition system: one step recognises one piece of    *)
(* block markup (phase "parse"), or emits one block (phase "emit"), or     *)
(* finishes the html code (phase "done").  The state of a conversion:      *)
(*                                                                         *)
(*   doc    the text after the normalisation of line ends                  *)
(*   env    the options                                                    *)
(*   pos    how much of it was read                                        *)
(*   empty  whether an empty line was recognised at pos (the next match    *)
(*          has to consume something)                                      *)
(*   out    the document tree so far;  open: its last block can still grow *)
(*   html   the html code so far;      tc: see CreoleHtml                  *)
(***************************************************************************)
EXTENDS CreoleDoc

CreoleStart(text, e) ==
  [fn |-> "creole", phase |-> "parse", doc |-> NormEol(text), env |-> e, pos |-> 1, empty |-> FALSE, out |-> << >>, open |-> FALSE,
   html |-> << >>, tc |-> NewToc(<< >>, e)]

Parse(c) ==
  LET b == BlockAt(c.doc, c.pos, c.empty, c.env.blog)
      to == b.m.to
  IN [c EXCEPT !.out = Extend(c.out, c.open, b, c.env.blog), !.open = StaysOpen(c.open, b), !.pos = to, !.empty = (to = c.pos)]
ParseEnd(c) == [c EXCEPT !.phase = "emit", !.pos = 1, !.tc = NewToc(c.out, c.env)]
Emit(c) ==
  LET r == EmitBlock(c.out[c.pos], c.env, c.tc)
  IN [c EXCEPT !.html = c.html \o r.h, !.tc = r.tc, !.pos = c.pos + 1]
Finish(c) == [c EXCEPT !.phase = "done", !.html = IF c.tc.raised THEN << >> ELSE PlaceToc(Strip(c.html), c.tc)]

CreoleStep(c) ==
  IF c.phase = "parse" THEN IF c.pos <= Len(c.doc) + 1 THEN Parse(c) ELSE ParseEnd(c)
  ELSE IF c.pos <= Len(c.out) /\ ~c.tc.raised THEN Emit(c)
  ELSE Finish(c)

CreoleResult(c) == [raised |-> c.tc.raised, err |-> c.tc.err, html |-> c.html]

(* what every step makes smaller: the conversion ends *)
CreoleMeasure(c) ==
  IF c.phase = "parse" THEN 10 * Len(c.doc) + 20 + 2 * (Len(c.doc) + 2 - c.pos) + (IF c.empty THEN 0 ELSE 1)
  ELSE IF c.phase = "emit" THEN 1 + Len(c.out) + 1 - c.pos ELSE 0
=============================================================================
