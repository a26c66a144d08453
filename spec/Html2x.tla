------------------------------- MODULE Html2x -------------------------------
(***************************************************************************)
(* html2creole, html2rest, html2textile and html2markdown as a transition  *)
(* system: the source is cleaned, then one step reads one tag, text or     *)
(* reference into the tree, then the tree is emitted.                      *)
(***************************************************************************)
EXTENDS Emitters

HtmlStart(text, c) ==
  [fn |-> "html", phase |-> "clean", src |-> text, cf |-> c, pos |-> 1, raw |-> << >>, tree |-> NewTree, pres |-> << >>,
   res |-> [exc |-> "", out |-> << >>]]

CleanUp(h) == LET c == Clean(h.src, h.cf.asis) IN [h EXCEPT !.phase = "read", !.src = c.s, !.pres = c.pres]
Read(h) ==
  LET m == TokenAt(h.src, h.pos, h.raw)
  IN [h EXCEPT !.pos = m.to, !.raw = m.raw, !.tree = IF m.evs = << >> THEN @ ELSE Handle(@, m.evs[1], h.pres)]
EmitAll(h) == [h EXCEPT !.phase = "done", !.res = Document(h.tree.nodes, h.cf)]

HtmlStep(h) ==
  IF h.phase = "clean" THEN CleanUp(h) ELSE IF h.pos <= Len(h.src) THEN Read(h) ELSE EmitAll(h)

(* what every step makes smaller: the conversion ends *)
HtmlMeasure(h) ==
  IF h.phase = "clean" THEN 100 * Len(h.src) + 1000 ELSE IF h.phase = "read" THEN Len(h.src) + 2 - h.pos ELSE 0
=============================================================================
