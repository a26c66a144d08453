------------------------------ MODULE HtmlTree ------------------------------
(***************************************************************************)
(* The document tree of html code: nodes in the order of their creation,   *)
(* node 1 is the document.  cur is the node that is open, level the depth  *)
(* of the open lists.                                                      *)
(***************************************************************************)
EXTENDS HtmlSyntax

Nothing == [has |-> FALSE, v |-> << >>]
Some(v) == [has |-> TRUE, v |-> v]
NoLevel == -1000

DOCUMENT == T("document")  HEADLINE == T("headline")
TUL == T("ul")  TOL == T("ol")  TLI == T("li")  TBR == T("br")  THR == T("hr")  TIMG == T("img")
TDATA == T("data")  TCHARREF == T("charref")  TENTREF == T("entityref")
IGNORED == {T("tbody"), T("thead"), T("tfoot")}
HTABLE == T("table")
CELLS == {T("th"), T("td")}
INTABLE == CELLS \cup {HTABLE, T("tr")}
PRESUFFIX == T("_pre")

NewTree == [nodes |-> << [kind |-> DOCUMENT, parent |-> 0, kids |-> << >>, content |-> Nothing,
                          attrs |-> << >>, level |-> NoLevel] >>, cur |-> 1, level |-> 0]

Add(tr, kind, content, attrs, level) ==
  LET id == Len(tr.nodes) + 1
      nodes == [tr.nodes EXCEPT ![tr.cur].kids = Append(@, id)]
  IN [tr EXCEPT !.nodes = Append(nodes, [kind |-> kind, parent |-> tr.cur, kids |-> << >>,
                                         content |-> content, attrs |-> attrs, level |-> level])]
Open(tr, kind, attrs, level) ==
  LET t == Add(tr, kind, Nothing, attrs, level) IN [t EXCEPT !.cur = Len(t.nodes)]

(* duplicate attributes: the first place, the last value *)
AttrDict(a) == FoldLeft(LAMBDA d, x : Put(d, x.k, x.v), << >>, a)

IsHeadTag(t) == Len(t) = 2 /\ t[1] = 104 /\ t[2] >= 49 /\ t[2] <= 57

IsOpen(n, tag) ==       \* was the node opened by a tag with this name?
  IF IsHeadTag(tag) THEN n.kind = HEADLINE /\ n.level # NoLevel
  ELSE IF tag = HEADLINE THEN n.kind = tag /\ n.level = NoLevel
  ELSE n.kind = tag

(* the node that an end tag closes: the nearest open one with this name, but *)
(* not outside of the table or table cell it stands in; 0: the tag is needless *)
RECURSIVE Closing(_, _, _)
Closing(nodes, n, tag) ==
  IF n = 1 THEN 0
  ELSE IF IsOpen(nodes[n], tag) THEN n
  ELSE IF nodes[n].kind = HTABLE \/ (nodes[n].kind \in CELLS /\ tag \notin INTABLE) THEN 0
  ELSE Closing(nodes, nodes[n].parent, tag)

RECURSIVE ListsUpTo(_, _, _)    \* the number of lists from n up to m
ListsUpTo(nodes, n, m) ==
  (IF nodes[n].kind \in {TUL, TOL} THEN 1 ELSE 0) + (IF n = m THEN 0 ELSE ListsUpTo(nodes, nodes[n].parent, m))

Started(tr, ev) ==
  LET tag == ev.tag
      attrs == AttrDict(ev.attrs)
  IN IF tag \in IGNORED THEN tr
     ELSE IF IsHeadTag(tag) THEN Open(tr, HEADLINE, << >>, tag[2] - 48)
     ELSE IF tag \in {TUL, TOL} THEN [Open(tr, tag, attrs, tr.level + 1) EXCEPT !.level = tr.level + 1]
     ELSE IF tag = TLI THEN Open(tr, tag, attrs, tr.level)
     ELSE IF tag \in VOID THEN Add(tr, tag, Nothing, attrs, NoLevel)
     ELSE Open(tr, tag, attrs, NoLevel)

Ended(tr, ev) ==
  LET n == IF ev.tag \in IGNORED THEN 0 ELSE Closing(tr.nodes, tr.cur, ev.tag) IN
  IF n = 0 THEN tr
  ELSE [tr EXCEPT !.cur = tr.nodes[n].parent, !.level = @ - ListsUpTo(tr.nodes, tr.cur, n)]

(* pres: the areas that were cut out *)
SelfClosed(tr, ev, pres) ==
  LET ids == {i \in 1..Len(pres) : ev.src = Placeholder(pres[i].name, i - 1)} IN
  IF ids # {} THEN LET i == CHOOSE i \in ids : TRUE
                   IN Add(tr, ev.tag \o PRESUFFIX, Some(pres[i].text), << >>, NoLevel)
  ELSE Add(tr, ev.tag, Nothing, AttrDict(ev.attrs), IF ev.tag = TLI THEN tr.level ELSE NoLevel)

Handle(tr, ev, pres) ==
  CASE ev.k = "data"      -> Add(tr, TDATA, Some(ev.t), << >>, NoLevel)
    [] ev.k = "charref"   -> Add(tr, TCHARREF, Some(ev.t), << >>, NoLevel)
    [] ev.k = "entityref" -> Add(tr, TENTREF, Some(ev.t), << >>, NoLevel)
    [] ev.k = "start"     -> Started(tr, ev)
    [] ev.k = "self"      -> SelfClosed(tr, ev, pres)
    [] ev.k = "end"       -> Ended(tr, ev)

(* the whole tree as a function *)
TreeStep(s, acc, i, pres) ==
  LET m == TokenAt(s, i, acc.raw)
  IN [to |-> m.to, raw |-> m.raw, tr |-> IF m.evs = << >> THEN acc.tr ELSE Handle(acc.tr, m.evs[1], pres)]
TreeOf(s, pres) ==
  LET w == Walk(1, Len(s), [to |-> 1, raw |-> << >>, tr |-> NewTree], LAMBDA acc, i : TreeStep(s, acc, i, pres))
  IN w.tr.nodes
ParseHtml(raw, asis) == LET c == Clean(raw, asis) IN TreeOf(c.s, c.pres)
ParseRaw(raw) == TreeOf(Strip(raw), << >>)     \* without the preparation
=============================================================================
