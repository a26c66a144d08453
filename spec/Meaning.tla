------------------------------ MODULE Meaning ------------------------------
(***************************************************************************)
(* What a document in html code means to its reader: blocks, markup, links *)
(* and words in order.  Not part of it: names for the same thing (b and    *)
(* strong), elements without a meaning of their own, attributes for        *)
(* layout, the amount of whitespace between words, paragraphs around the   *)
(* text of list items and table cells.                                     *)
(***************************************************************************)
EXTENDS Rest

SameNames == << << "b", "strong" >>, << "i", "em" >>, << "tt", "code" >>, << "strike", "del" >>, << "s", "del" >> >>
SameAs(n) == LET k == {j \in 1..Len(SameNames) : T(SameNames[j][1]) = n} IN IF k = {} THEN n ELSE T(SameNames[CHOOSE j \in k : TRUE][2])

Frames == {T(x) : x \in {"div", "span", "thead", "tbody", "tfoot", "colgroup", "col", "html", "body", "head", "big"}}
Holders == {T(x) : x \in {"li", "td", "th"}}
Voids == {T(x) : x \in {"br", "hr", "img"}}
MeantAttrs == {T(x) : x \in {"href", "src", "alt"}}

(* the amount of whitespace in texts doesn't matter *)
Plainly(a) == [j \in 1..Len(a) |-> IF a[j].k = T("alt") THEN [a[j] EXCEPT !.v = Strip(Collapse(@))] ELSE a[j]]

(* acc.held: how many list items and cells are open; acc.pre: is a preformatted area open *)
MeanStep(acc, t) ==
  LET n == SameAs(t.n)
      up == IF t.k = "start" THEN 1 ELSE -1
      needless == \/ n \in Frames
                  \/ (n \in {T("p"), T("blockquote")} /\ acc.held > 0)
                  \/ (n = T("code") /\ acc.pre)
      x == IF n \in Voids THEN Tok("self", n, SortSeq(SelectSeq(Plainly(t.a), LAMBDA y : y.k \in MeantAttrs), LAMBDA y, z : TextLess(y.k, z.k)), << >>)
           ELSE Tok(t.k, n, IF n = T("a") THEN SelectSeq(t.a, LAMBDA y : y.k \in MeantAttrs) ELSE << >>, << >>)
  IN IF t.k = "text" THEN [acc EXCEPT !.out = Append(@, t)]
     ELSE IF t.k = "comment" \/ needless THEN acc
     ELSE [held |-> IF n \in Holders /\ t.k \in {"start", "end"} THEN acc.held + up ELSE acc.held,
           pre |-> IF n = T("pre") THEN t.k = "start" ELSE acc.pre,
           out |-> Append(acc.out, x)]
MeanTokens(toks) == FoldLeft(MeanStep, [held |-> 0, pre |-> FALSE, out |-> << >>], toks).out

(* line ends at the ends of preformatted text don't show *)
TrimNl(t) == StripSet(t, {NL, 13})
PreText(toks) ==
  [i \in 1..Len(toks) |->
     IF toks[i].k = "text" /\ i > 1 /\ IsTag(toks[i - 1], "pre") /\ toks[i - 1].k = "start" THEN [toks[i] EXCEPT !.t = TrimNl(@)] ELSE toks[i]]

Meaning(html) == PreText(Spaced(MeanTokens(TokensOf(html))))

(* for people *)
ShowTok(t) ==
  IF t.k = "text" THEN t.t
  ELSE T("<") \o (IF t.k = "end" THEN T("/") ELSE << >>) \o t.n \o FlattenSeq([j \in 1..Len(t.a) |-> T(" ") \o t.a[j].k \o T("=") \o t.a[j].v]) \o T(">")
Show(m) == FlattenSeq([i \in 1..Len(m) |-> ShowTok(m[i])])
=============================================================================
