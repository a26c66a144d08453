----------------------------- MODULE CreoleTree -----------------------------
(***************************************************************************)
(* The document tree: a sequence of blocks.  How matched markup becomes    *)
(* nodes, and where a block is put relative to the block that is open.     *)
(***************************************************************************)
EXTENDS CreoleGrammar

TextNode(t) == [k |-> "text", t |-> t]
BreakNode == [k |-> "br"]

(* a break at the very end of an element has no effect and is dropped *)
DropBreak(kids) ==
  IF kids # << >> /\ kids[Len(kids)].k = "br" THEN SubSeq(kids, 1, Len(kids) - 1) ELSE kids

------------------------------------------------------------- (* link labels *)
SpecialInLabel == {123, 92, NL}
ImageNode(m) ==
  LET target == Strip(m.target)
  IN [k |-> "img", target |-> target, text |-> IF m.label # << >> THEN m.label ELSE target]

LabelKids(s) ==
  LET Put1(acc, node, to) == [to |-> to, kids |-> Append(acc.kids, node)]
      Piece(acc, i) ==
        LET img == IF s[i] = 123 THEN ImageAt(s, i) ELSE No
            e == FirstOfSet(s, SpecialInLabel, i + 1)
        IN IF img.ok THEN Put1(acc, ImageNode(img), img.to)
           ELSE IF StartsAt(s, i, P_BR) THEN Put1(acc, BreakNode, i + 2)
           ELSE IF s[i] = NL THEN [acc EXCEPT !.to = i + 1]
           ELSE Put1(acc, TextNode(Slice(s, i, e)), e)
      w == Walk(1, Len(s), [to |-> 1, kids |-> << >>], Piece)
  IN w.kids

------------------------------------------------------------- (* inline text *)
(* characters that may start inline markup; letters only start protocols *)
Special == {91, 60, 123, 126, 92, NL} \cup MarkChars
ProtoFirst == {104, 102, 110, 109, 116, 105}
PlainEnd(s, i) ==
  Scan(s, i, LAMBDA k : s[k] \in Special \/ (s[k] \in ProtoFirst /\ IsWs(s[k - 1]) /\ ProtoAt(s, k) # 0))

MacroNode(kind, m, hastext) ==
  [k |-> "macro", block |-> kind = "block", name |-> m.name, args |-> m.args,
   text |-> IF hastext THEN [t |-> "str", v |-> m.text] ELSE [t |-> "none", v |-> T("None")]]

RECURSIVE Inline(_)

(* the markup at i: which nodes it becomes, and where it ends *)
InlineAt(s, i) ==
  LET
    c == s[i]
    link == IF c = 91 THEN LinkAt(s, i) ELSE No
    url  == IF c = 126 \/ c \in ProtoFirst THEN UrlAt(s, i) ELSE No
    pair == IF c = 60 THEN MacroPairAt(s, i) ELSE No
    tag  == IF c = 60 THEN MacroTagAt(s, i) ELSE No
    code == IF c = 123 THEN PreInlineAt(s, i) ELSE No
    img  == IF c = 123 THEN ImageAt(s, i) ELSE No
    mark == IF c \in MarkChars THEN MarkAt(s, i) ELSE No
    e == PlainEnd(s, i + 1)
    One(node, to) == [nodes |-> << node >>, to |-> to]
  IN CASE link.ok -> One([k |-> "link", target |-> link.target, kids |-> LabelKids(link.label)], link.to)
       [] url.ok  -> One(IF url.escaped THEN TextNode(url.target)
                         ELSE [k |-> "link", target |-> url.target, kids |-> << TextNode(url.target) >>], url.to)
       [] pair.ok -> One(MacroNode("inline", pair, TRUE), pair.to)
       [] tag.ok  -> One(MacroNode("inline", tag, FALSE), tag.to)
       [] code.ok -> One([k |-> "code", t |-> code.text], code.to)
       [] img.ok  -> One(ImageNode(img), img.to)
       [] mark.ok -> One([k |-> "mark", tag |-> mark.tag, kids |-> DropBreak(Inline(mark.text))], mark.to)
       [] StartsAt(s, i, P_BR) -> One(BreakNode, i + 2)
       [] c = 126 /\ i < Len(s) /\ ~IsWs(s[i + 1]) -> One(TextNode(<< s[i + 1] >>), i + 2)
       [] c = NL  -> [nodes |-> << >>, to |-> i + 1]
       [] OTHER   -> One(TextNode(Slice(s, i, e)), e)

Inline(s) ==
  LET w == Walk(1, Len(s), [to |-> 1, kids |-> << >>],
                LAMBDA acc, i : LET m == InlineAt(s, i) IN [to |-> m.to, kids |-> acc.kids \o m.nodes])
  IN w.kids

--------------------------------------------------------------- (* the tree *)
(* open: the kind of the last block if it can still grow, else "none" *)
OpenKind(out, open) == IF open THEN out[Len(out)].k ELSE "none"

SetLast(out, b) == [out EXCEPT ![Len(out)] = b]

(* a block that starts at the top level ends the open block; drop its useless last break *)
RECURSIVE CleanList(_)
CleanList(lst) ==       \* drop the break at the end of the innermost open item
  LET it == lst.items[Len(lst.items)]
      last == IF it = << >> THEN [k |-> "no"] ELSE it[Len(it)]
      it2 == IF last.k = "list" THEN SetLast(it, CleanList(last)) ELSE DropBreak(it)
  IN [lst EXCEPT !.items = SetLast(@, it2)]

Close(out, open) ==
  IF ~open THEN out
  ELSE LET b == out[Len(out)] IN
       IF b.k = "para" THEN SetLast(out, [b EXCEPT !.kids = DropBreak(@)])
       ELSE IF b.k = "list" THEN SetLast(out, CleanList(b))
       ELSE out

(* levels of the chain of open lists, outermost first *)
RECURSIVE Chain(_)
Chain(lst) ==
  LET it == lst.items[Len(lst.items)]
      last == IF it = << >> THEN [k |-> "no"] ELSE it[Len(it)]
  IN << [level |-> lst.level, num |-> lst.num] >> \o (IF last.k = "list" THEN Chain(last) ELSE << >>)

RECURSIVE AddItemAt(_, _, _)
AddItemAt(lst, depth, kids) ==
  IF depth = 1 THEN [lst EXCEPT !.items = Append(@, kids)]
  ELSE LET it == lst.items[Len(lst.items)]
       IN [lst EXCEPT !.items = SetLast(@, SetLast(it, AddItemAt(it[Len(it)], depth - 1, kids)))]

RECURSIVE AddSublist(_, _)      \* a new list inside of the innermost open item
AddSublist(lst, new) ==
  LET it == lst.items[Len(lst.items)]
      last == IF it = << >> THEN [k |-> "no"] ELSE it[Len(it)]
      it2 == IF last.k = "list" THEN SetLast(it, AddSublist(last, new)) ELSE Append(DropBreak(it), new)
  IN [lst EXCEPT !.items = SetLast(@, it2)]

AddItem(out, open, item) ==
  LET level == Len(item.bullet) - 1
      num == item.bullet[Len(item.bullet)] = 35
      kids == Inline(item.text)
      new == [k |-> "list", num |-> num, level |-> level, items |-> << kids >>]
  IN IF OpenKind(out, open) # "list" THEN Append(Close(out, open), new)
     ELSE LET lst == out[Len(out)]
              chain == Chain(lst)
              same == {d \in 1..Len(chain) : chain[d].level = level}
              d == Max(same)
          IN IF same # {} /\ chain[d].num = num THEN SetLast(out, AddItemAt(lst, d, kids))
             ELSE SetLast(out, AddSublist(lst, new))

AddItems(out, open, items) ==
  LET w == FoldLeft(LAMBDA acc, item : [out |-> AddItem(acc.out, acc.open, item), open |-> TRUE],
                    [out |-> out, open |-> open], items)
  IN w.out

(* text that continues the innermost open item *)
RECURSIVE AddToItem(_, _, _)
AddToItem(lst, m, blog) ==
  LET it == lst.items[Len(lst.items)]
      last == IF it = << >> THEN [k |-> "no"] ELSE it[Len(it)]
      brk == IF blog /\ it # << >> /\ last.k # "br" THEN << BreakNode >> ELSE << >>
      txt == IF m.sep /\ it # << >> THEN << SP >> \o m.text ELSE m.text
      it2 == IF last.k = "list" THEN SetLast(it, AddToItem(last, m, blog)) ELSE it \o brk \o Inline(txt)
  IN [lst EXCEPT !.items = SetLast(@, it2)]

AddText(out, open, m, blog) ==
  LET kind == OpenKind(out, open) IN
  IF kind = "list" THEN SetLast(out, AddToItem(out[Len(out)], m, blog))
  ELSE LET fresh == kind # "para"
           old == IF fresh THEN << >> ELSE out[Len(out)].kids
           txt == IF m.sep /\ old # << >> THEN << SP >> \o m.text ELSE m.text
           kids == old \o Inline(txt) \o (IF m.brk THEN << BreakNode >> ELSE << >>)
       IN IF fresh THEN Append(Close(out, open), [k |-> "para", kids |-> kids])
          ELSE SetLast(out, [k |-> "para", kids |-> kids])

RowNode(row) ==
  LET cells == RowCells(row)
  IN Eager([i \in 1..Len(cells) |-> [head |-> cells[i].head, kids |-> Inline(cells[i].text)]])

AddRow(out, open, row) ==
  IF OpenKind(out, open) = "table"
  THEN SetLast(out, [out[Len(out)] EXCEPT !.rows = Append(@, RowNode(row))])
  ELSE Append(Close(out, open), [k |-> "table", rows |-> << RowNode(row) >>])

------------------------------------------------- (* one step of the parser *)
(* Which rule applies at i is decided by this order; the first one that matches wins. *)
BlockAt(s, i, nonempty, blog) ==
  LET bol == Bol(s, i)
      mac == MacroPairAt(s, i)
      line == LineAt(s, i, nonempty)
      head == HeadAt(s, i)
      hr == SeparatorAt(s, i)
      pre == PreBlockAt(s, i)
      lst == ListAt(s, i)
      tab == TableAt(s, i)
      txt == TextAt(s, i, blog)
  IN CASE mac.ok -> [rule |-> "macro", m |-> mac]
       [] bol /\ line.ok -> [rule |-> "line", m |-> line]
       [] bol /\ head.ok -> [rule |-> "head", m |-> head]
       [] bol /\ hr.ok  -> [rule |-> "hr", m |-> hr]
       [] bol /\ pre.ok -> [rule |-> "pre", m |-> pre]
       [] bol /\ lst.ok -> [rule |-> "list", m |-> lst]
       [] bol /\ tab.ok -> [rule |-> "table", m |-> tab]
       [] txt.ok -> [rule |-> "text", m |-> txt]
       [] OTHER  -> [rule |-> "skip", m |-> [ok |-> TRUE, to |-> i + 1]]

Extend(out, open, b, blog) ==
  CASE b.rule = "macro" -> Append(Close(out, open), MacroNode("block", b.m, TRUE))
    [] b.rule = "line" -> Append(Close(out, open), [k |-> "nl"])
    [] b.rule = "head" -> Append(Close(out, open), [k |-> "head", level |-> b.m.level, text |-> b.m.text])
    [] b.rule = "hr"   -> Append(Close(out, open), [k |-> "hr"])
    [] b.rule = "pre"  -> Append(Close(out, open), [k |-> "pre", t |-> b.m.text])
    [] b.rule = "list" -> AddItems(out, open, ListItems(b.m.text))
    [] b.rule = "table" -> AddRow(out, open, b.m.row)
    [] b.rule = "text" -> AddText(out, open, b.m, blog)
    [] b.rule = "skip" -> out

StaysOpen(open, b) ==
  IF b.rule = "skip" THEN open ELSE b.rule \in {"list", "table", "text"}
=============================================================================
