------------------------------ MODULE Emitters ------------------------------
(***************************************************************************)
(* html document trees as Creole, reStructuredText, Textile and Markdown.  *)
(*                                                                         *)
(* cf: [target |-> "creole" | "rest" | "textile" | "markdown",             *)
(*      strict |-> BOOLEAN, policy |-> "transparent" | "escape" | "html" | *)
(*                                     "pre" | "raise",                    *)
(*      asis |-> BOOLEAN: with the defects listed in known_findings.json]  *)
(* st: the state that is threaded through the tree in document order:      *)
(*   last    the node that was emitted last      inner  markers of open lists *)
(*   tabs    the open tables, innermost last     mark   list marker (rest) *)
(*   subs    collected references (rest)         links, imgs: known references *)
(*   exc     the exception that ends the conversion, or ""                 *)
(***************************************************************************)
EXTENDS HtmlTree, Url, Tables

NewSt == [last |-> 0, inner |-> << >>, tabs |-> << >>, mark |-> << >>, subs |-> << >>,
          links |-> << >>, imgs |-> << >>, exc |-> ""]

----------------------------------------------------------- (* simple tables *)
TypefacesOf == [
  creole |-> << <<"strong", "**">>, <<"b", "**">>, <<"big", "**">>, <<"i", "//">>, <<"em", "//">>, <<"tt", "##">>,
                <<"sup", "^^">>, <<"sub", ",,">>, <<"u", "__">>, <<"small", "--">>, <<"del", "~~">>, <<"strike", "~~">> >>,
  rest |-> << <<"strong", "**">>, <<"b", "**">>, <<"big", "**">>, <<"i", "*">>, <<"em", "*">>, <<"tt", "``">>, <<"small", "">> >>,
  textile |-> << <<"strong", "*">>, <<"b", "**">>, <<"big", "*">>, <<"i", "__">>, <<"em", "_">>, <<"sup", "^">>, <<"sub", "~">>,
                 <<"del", "-">>, <<"cite", "??">>, <<"ins", "+">>, <<"span", "%">>, <<"code", "@">> >>,
  markdown |-> << <<"strong", "**">>, <<"b", "**">>, <<"big", "**">>, <<"i", "_">>, <<"em", "_">>, <<"tt", "##">>,
                  <<"sup", "<sup>", "</sup>">>, <<"sub", "<sub>", "</sub>">>, <<"u", "__">>, <<"small", "--">>,
                  <<"del", "~~">>, <<"strike", "~~">> >>]

Targets == {"creole", "rest", "textile", "markdown"}
(* tag text -> <<opening, closing>> *)
Typeface == [t \in Targets |->
  [n \in {T(TypefacesOf[t][i][1]) : i \in 1..Len(TypefacesOf[t])} |->
     LET e == TypefacesOf[t][CHOOSE i \in 1..Len(TypefacesOf[t]) : T(TypefacesOf[t][i][1]) = n]
     IN << T(e[2]), IF Len(e) = 3 THEN T(e[3]) ELSE T(e[2]) >>]]
IsTypeface(t, kind) == kind \in DOMAIN Typeface[t]

KP == T("p")  KA == T("a")  KTABLE == T("table")  KTR == T("tr")  KTH == T("th")  KTD == T("td")
KDIV == T("div")  KSPAN == T("span")  KCODE == T("code")  KLIST == T("list")
BLOCKPRE == T("blockdata_pre")  INLINEPRE == T("inlinedata_pre")  BLOCKPASS == T("blockdata_pass")
Internal == {DOCUMENT, HEADLINE, TDATA, TENTREF, TCHARREF, BLOCKPRE, BLOCKPASS, INLINEPRE}
NN == << NL, NL >>

--------------------------------------------------------------- (* helpers *)
AttrOf(n, name) ==      \* the value of an attribute, << >> if missing or without a value
  LET i == Lookup(n.attrs, T(name)) IN IF i = 0 THEN << >> ELSE n.attrs[i].v.v

(* one line: the lines of the text joined by forced line breaks *)
Lined(text, break) ==
  LET l == SplitChar(Strip(text), NL)
      stripped == [i \in 1..Len(l) |-> Strip(l[i])]
  IN Join(SelectSeq(stripped, LAMBDA x : x # << >>), break)
OneLine(text, cf) == Lined(text, IF cf.target = "textile" THEN << NL >> ELSE T("\\\\"))

BaseName(s) == SubSeq(s, LastOf(s, 47) + 1, Len(s))
Longest(title, alt) == IF Len(alt) > Len(title) THEN alt ELSE title
ImgText(n, src) == LET t == Longest(AttrOf(n, "title"), AttrOf(n, "alt")) IN IF t = << >> THEN BaseName(src) ELSE t
IsDataUri(src) == StartsWith(src, T("data")) /\ At(src, 5) \in {58, -1}

IsLineSep(c) == c \in {10, 11, 12, 13, 28, 29, 30, 133, 8232, 8233}
SplitLines(s) ==        \* like reading a text line by line
  LET n == Subst(s, << 13, 10 >>, << 10 >>)
      l == SplitChar(Eager([i \in 1..Len(n) |-> IF IsLineSep(n[i]) THEN NL ELSE n[i]]), NL)
  IN IF l[Len(l)] = << >> THEN SubSeq(l, 1, Len(l) - 1) ELSE l

StripNl(s) == StripSet(s, {NL})

(* the attributes of a tag as html code, sorted by name *)
AttrsText(n) ==
  LET d == SortByKey(n.attrs)
  IN FlattenSeq([i \in 1..Len(d) |-> << SP >> \o d[i].k \o
       (IF d[i].v.t = "none" THEN << >> ELSE << 61, 34 >> \o EscapeAttr(d[i].v.v) \o << 34 >>)])

FindKey(d, key) == Lookup(d, key)

RefText(n) ==       \* a character reference or entity node
  IF n.kind = TENTREF THEN LET c == NamedChar(n.content.v) IN IF c # << >> THEN c ELSE << 38 >> \o n.content.v
  ELSE LET x == n.content.v IN
       IF x[1] \in {120, 88} THEN << CodePoint(Tail(x), 16) >> ELSE << CodePoint(x, 10) >>

RECURSIVE PlainText(_, _)   \* the text of a node and its children
PlainText(nodes, id) ==
  LET n == nodes[id] IN
  IF n.kind \in {TENTREF, TCHARREF} THEN RefText(n)
  ELSE (IF n.content.has THEN n.content.v ELSE << >>)
       \o FlattenSeq([i \in 1..Len(n.kids) |-> PlainText(nodes, n.kids[i])])

------------------------------------------------- (* preformatted text *)
FENCE == T("```")
MarkdownCode(content) ==
  IF ~EndsWith(content, T("</code>")) THEN << NL >> \o FENCE \o Deentity(content) \o FENCE \o << NL >>
  ELSE LET nodes == ParseRaw(content)
           code == PlainText(nodes, 1)
           class == IF nodes[1].kids = << >> THEN << >> ELSE AttrOf(nodes[nodes[1].kids[1]], "class")
           lang == T("language-")
       IN IF StartsWith(class, lang)
          THEN << NL >> \o FENCE \o SubSeq(class, Len(lang) + 1, Len(class))
               \o (IF StartsWith(code, << NL >>) THEN << >> ELSE << NL >>) \o code \o FENCE \o << NL >>
          ELSE << NL >> \o FENCE \o code \o FENCE \o << NL >>

PreText(n, cf) ==
  LET block == n.kind = BLOCKPRE
      text == Deentity(n.content.v)
      all == SplitLines(RStrip(text))
      lines == SubSeq(all, Scan(all, 1, LAMBDA k : Strip(all[k]) # << >>), Len(all))     \* the first line keeps its indent
  IN CASE cf.target = "creole" -> T("{{{") \o text \o T("}}}") \o (IF block THEN << NL >> ELSE << >>)
       [] cf.target = "textile" -> T("<pre>") \o text \o T("</pre>") \o (IF block THEN NN ELSE << >>)
       [] cf.target = "rest" ->
            IF block THEN T("::\n\n") \o Join([i \in 1..Len(lines) |-> Spaces(4) \o lines[i]], << NL >>) \o NN
            ELSE T("<pre>") \o text \o T("</pre>")
       [] cf.target = "markdown" ->
            IF block THEN FENCE \o text \o FENCE \o << NL >> ELSE MarkdownCode(n.content.v)

------------------------------------------------------------ (* the emitters *)
RECURSIVE Node(_, _, _, _)          \* (nodes, id, st, cf)

Out(o, st) == [o |-> o, st |-> st]
Fail(st, e) == [o |-> << >>, st |-> [st EXCEPT !.exc = e]]

RECURSIVE Inside(_, _, _)
Inside(nodes, id, kinds) ==
  IF id = 1 THEN FALSE
  ELSE LET p == nodes[id].parent IN nodes[p].kind \in kinds \/ Inside(nodes, p, kinds)


(* a block behind loose text is separated from it; asis: it's not (known finding F5) *)
Starts(nodes, k, o, st) ==
  LET kind == nodes[k].kind
      p == nodes[k].parent
  IN /\ ~EndsWith(o, << NL >>) /\ o # << >>
     /\ kind \in {HEADLINE, BLOCKPRE} \/ (IsBlockTag(kind) /\ kind \notin {TBR, T("ins")})
     /\ p = 1 \/ (nodes[p].kind = T("div") /\ ~Inside(nodes, p, {TLI, T("th"), T("td")}))
Joined(nodes, k, acc, r, cf) ==
  IF ~cf.asis /\ r.o # << >> /\ ~StartsWith(r.o, << NL >>) /\ Starts(nodes, k, acc.o, r.st)
  THEN acc.o \o NN \o r.o ELSE acc.o \o r.o

KidsOf(nodes, id, st, cf) ==
  FoldLeft(LAMBDA acc, k : IF acc.st.exc # "" THEN acc
                           ELSE LET r == Node(nodes, k, acc.st, cf) IN Out(Joined(nodes, k, acc, r, cf), r.st),
           Out(<< >>, [st EXCEPT !.last = id]), nodes[id].kids)

RECURSIVE HasBlocks(_, _)       \* contains a paragraph, headline, list, table, preformatted text, ...
HasBlocks(nodes, id) ==
  \E i \in 1..Len(nodes[id].kids) :
    LET k == nodes[id].kids[i] IN
      \/ nodes[k].kind \in {HEADLINE, BLOCKPRE, INLINEPRE}
      \/ (IsBlockTag(nodes[k].kind) /\ nodes[k].kind # TBR)
      \/ HasBlocks(nodes, k)
(* the content of a node: in one line, or the blocks in it *)
(* an empty line separates two tables (creole) *)
RECURSIVE StartsTable(_, _)
StartsTable(nodes, id) ==
  LET n == nodes[id] IN n.kind = KTABLE \/ (n.kind = KDIV /\ n.kids # << >> /\ StartsTable(nodes, n.kids[1]))
TableGap(nodes, id, cf) ==
  LET kids == nodes[nodes[id].parent].kids
      i == CHOOSE j \in 1..Len(kids) : kids[j] = id
  IN IF cf.target = "creole" /\ i > 1 /\ nodes[kids[i - 1]].kind = KTABLE /\ StartsTable(nodes, id) THEN << NL >> ELSE << >>

Content(nodes, id, st, cf) ==
  LET r == KidsOf(nodes, id, st, cf)
  IN IF HasBlocks(nodes, id) /\ ~Inside(nodes, id, {TLI, KTH, KTD}) THEN Out(StripNl(r.o) \o NN, r.st)
     ELSE Out(OneLine(r.o, cf) \o (IF IsBlockTag(nodes[id].kind) THEN NN ELSE << >>), r.st)

Wrapped(nodes, id, st, cf, a, b) == LET r == KidsOf(nodes, id, st, cf) IN Out(a \o r.o \o b, r.st)

(* unknown tags *)
Masked(nodes, id, st, cf, macro) ==
  LET n == nodes[id]
      r == KidsOf(nodes, id, st, cf)
      open == T("<<") \o macro \o T(">>")
      close == T("<</") \o macro \o T(">>")
      tag == n.kind \o AttrsText(n)
  IN Out(IF r.o = << >> THEN open \o T("<") \o tag \o T(" />") \o close
         ELSE open \o T("<") \o tag \o T(">") \o close \o r.o \o open \o T("</") \o n.kind \o T(">") \o close, r.st)

Unknown(nodes, id, st, cf) ==
  CASE cf.policy = "transparent" -> Content(nodes, id, st, cf)
    [] cf.policy = "html" -> Masked(nodes, id, st, cf, T("html"))
    [] cf.policy = "pre"  -> Masked(nodes, id, st, cf, T("pre"))
    [] cf.policy = "escape" ->
         LET n == nodes[id]
             r == KidsOf(nodes, id, st, cf)
             tag == n.kind \o AttrsText(n)
         IN Out(IF r.o = << >> THEN Escape(T("<") \o tag \o T(" />"))
                ELSE Escape(T("<") \o tag \o T(">")) \o r.o \o Escape(T("</") \o n.kind \o T(">")), r.st)
    [] cf.policy = "raise" ->
         LET r == KidsOf(nodes, id, st, cf) IN IF r.st.exc # "" THEN r ELSE Fail(r.st, "NotImplementedError")

(* ---- lists ---- *)
ListNode(nodes, id, st, cf) ==
  LET n == nodes[id]
      ordered == n.kind = TOL
      lastn == nodes[st.last]
      newline == st.last # 0 /\ ~IsBlockTag(lastn.kind)
                 /\ ~(lastn.content.has /\ EndsWith(lastn.content.v, << NL >>))
      marker == IF ordered THEN << 35 >> ELSE << 42 >>
      r == KidsOf(nodes, id, [st EXCEPT !.inner = @ \o marker], cf)
      done == [r.st EXCEPT !.inner = st.inner]
  IN IF st.inner # << >> THEN Out(r.o, done)
     ELSE IF newline THEN Out(<< NL >> \o r.o \o NN, done)
     ELSE Out(Strip(r.o) \o NN, done)

RestList(nodes, id, st, cf) ==
  LET n == nodes[id]
      r == KidsOf(nodes, id, [st EXCEPT !.mark = IF n.kind = TOL THEN T("#.") ELSE T("*")], cf)
      done == [r.st EXCEPT !.mark = st.mark]
      lines == SelectSeq(SplitChar(r.o, NL), LAMBDA x : x # << >>)
  IN IF n.level = 1 THEN Out(Join(lines, NN) \o NN, done) ELSE Out(r.o, done)

MdList(nodes, id, st, cf) ==
  LET r == KidsOf(nodes, id, st, cf)
  IN IF nodes[id].level = 1 THEN Out(<< NL >> \o r.o \o << NL >>, r.st) ELSE r

(* everything in an item stands below its text *)
MdItem(mark, content) ==
  LET lines == SplitChar(StripNl(content), NL)
      pad == Spaces(Len(mark) + 1)
  IN << NL >> \o mark \o << SP >> \o Join([i \in 1..Len(lines) |-> IF i = 1 \/ lines[i] = << >> THEN lines[i] ELSE pad \o lines[i]], << NL >>)

Item(nodes, id, st, cf) ==
  LET n == nodes[id]
      r == KidsOf(nodes, id, st, cf)
  IN CASE cf.target \in {"creole", "textile"} -> Out(<< NL >> \o st.inner \o << SP >> \o r.o, r.st)
       [] cf.target = "rest" ->
            Out(<< NL >> \o Spaces(4 * Max2(0, n.level - 1)) \o st.mark \o << SP >> \o StripNl(r.o) \o << NL >>, r.st)
       [] cf.target = "markdown" ->
            Out(MdItem(IF nodes[n.parent].kind = TOL THEN T("1.") ELSE << 42 >>, r.o), r.st)

(* ---- tables ---- *)
HeadPrefix(cf) == IF cf.target = "creole" THEN T("= ") ELSE IF cf.target = "textile" THEN T("_. ") ELSE << >>

TableNode(nodes, id, st, cf) ==
  LET start == TableGap(nodes, id, cf)
      r == KidsOf(nodes, id, [st EXCEPT !.tabs = Append(@, NewTable)], cf)
      tab == r.st.tabs[Len(r.st.tabs)]
      done == [r.st EXCEPT !.tabs = st.tabs]
      rest == Strip(r.o)          \* what is in no cell, e.g. a caption
      pre == IF rest = << >> THEN << >> ELSE rest \o NN
      inner == Len(st.tabs) > 0
      Markup(whole) == IF inner THEN InnerTable(tab) ELSE whole
  IN IF r.st.exc # "" THEN Out(<< >>, r.st)
     ELSE CASE cf.target = "creole"   -> Out(start \o pre \o Markup(AlignedTable(tab, HeadPrefix(cf))) \o << NL >>, done)
            [] cf.target = "textile"  -> Out(pre \o PlainTable(tab) \o NN, done)
            [] cf.target = "rest"     -> Out(pre \o Markup(GridTable(tab)) \o NN, done)
            [] cf.target = "markdown" -> Out(<< NL >> \o pre \o Markup(PipeTable(tab)) \o << NL >>, done)

UpTab(st, f(_)) == [st EXCEPT !.tabs[Len(st.tabs)] = f(@)]

RowNodeH(nodes, id, st, cf) == KidsOf(nodes, id, UpTab(st, AddRowT), cf)

CellNode(nodes, id, st, cf) ==
  LET r == KidsOf(nodes, id, st, cf)
      text == IF cf.target = "markdown" THEN Lined(r.o, T("<br />")) ELSE OneLine(r.o, cf)
      F(t) == IF nodes[id].kind = KTH THEN AddHeadT(t, HeadPrefix(cf), text) ELSE AddCellT(t, text)
  IN IF r.st.exc # "" THEN r ELSE Out(<< >>, UpTab(r.st, F))

(* ---- references (rest) ---- *)
RECURSIVE InCell(_, _)
InCell(nodes, id) ==
  LET p == nodes[id].parent IN
  IF nodes[p].kind \in {KTH, KTD} THEN TRUE ELSE IF p = 1 THEN FALSE ELSE InCell(nodes, p)

(* "new", "old" (same target) or "clash" *)
Reference(d, text, url) ==
  LET i == FindKey(d, text) IN IF i = 0 THEN "new" ELSE IF d[i].v = url THEN "old" ELSE "clash"

Tick(t) == << 96 >> \o t \o T("`_")

RestLink(nodes, id, st, cf) ==
  LET r == KidsOf(nodes, id, st, cf)
      url == AttrOf(nodes[id], "href")
      ref == Reference(r.st.links, r.o, url)
      noted == IF ref = "new" THEN [r.st EXCEPT !.links = Append(@, [k |-> r.o, v |-> url])] ELSE r.st
  IN IF r.st.exc # "" \/ url = << >> THEN r
     ELSE IF ref = "clash" THEN Fail(r.st, "Html2restException")
     ELSE IF InCell(nodes, id)
          THEN Out(Tick(r.o), IF ref = "new"
                              THEN [noted EXCEPT !.subs = Append(@, T(".. _") \o r.o \o T(": ") \o url)] ELSE noted)
     ELSE IF ref = "old" THEN Out(Tick(r.o), noted)
     ELSE Out(Tick(r.o \o T(" <") \o url \o T(">")), noted)

RestImage(n, st) ==
  LET src == AttrOf(n, "src")
      text == ImgText(n, src)
      ref == Reference(st.imgs, text, src)
      out == << 124 >> \o text \o << 124 >>
  IN IF src = << >> \/ IsDataUri(src) THEN Out(<< >>, st)
     ELSE IF ref = "clash" THEN Fail(st, "Html2restException")
     ELSE IF ref = "old" THEN Out(out, st)
     ELSE Out(out, [st EXCEPT !.imgs = Append(@, [k |-> text, v |-> src]),
                              !.subs = Append(@, T(".. |") \o text \o T("| image:: ") \o src)])

(* ---- links and images ---- *)
LinkNode(nodes, id, st, cf) ==
  LET r == KidsOf(nodes, id, st, cf)
      n == nodes[id]
      url == AttrOf(n, "href")
      title == AttrOf(n, "title")
  IN IF cf.target = "rest" THEN RestLink(nodes, id, st, cf)
     ELSE IF url = << >> THEN r
     ELSE CASE cf.target = "creole" ->
                 Out(T("[[") \o url \o (IF r.o = url THEN << >> ELSE << 124 >> \o r.o) \o T("]]"), r.st)
            [] cf.target = "textile" -> Out(<< 34 >> \o r.o \o T("\":") \o url, r.st)
            [] cf.target = "markdown" ->
                 Out(<< 91 >> \o r.o \o T("](") \o QuoteLink(url)
                     \o (IF title # << >> THEN T(" \"") \o title \o << 34 >> ELSE << >>) \o << 41 >>, r.st)

ImageNodeH(n, st, cf) ==
  LET src == AttrOf(n, "src")
      text == ImgText(n, src)
      w == AttrOf(n, IF cf.asis THEN "height" ELSE "width")        \* known finding F2
      h == AttrOf(n, IF cf.asis THEN "width" ELSE "height")
      title == AttrOf(n, "title")
      alt == AttrOf(n, "alt")
  IN IF cf.target = "rest" THEN RestImage(n, st)
     ELSE IF src = << >> \/ (cf.target # "markdown" /\ IsDataUri(src)) THEN Out(<< >>, st)
     ELSE CASE cf.target = "creole" ->
                 Out(T("{{") \o src \o << 124 >> \o text
                     \o (IF ~cf.strict /\ w # << >> /\ h # << >> THEN << 124 >> \o w \o << 120 >> \o h ELSE << >>) \o T("}}"), st)
            [] cf.target = "textile" -> Out(<< 33 >> \o src \o << 40 >> \o text \o T(")!"), st)
            [] cf.target = "markdown" ->
                 Out(T("![") \o alt \o T("](") \o QuoteLink(src)
                     \o (IF title # << >> /\ alt # << >> THEN T(" \"") \o title \o << 34 >> ELSE << >>) \o << 41 >>, st)

(* ---- headlines ---- *)
HEADCHARS == << << 61, TRUE >>, << 45, TRUE >>, << 61, FALSE >>, << 45, FALSE >>, << 96, FALSE >>, << 39, FALSE >> >>
Headline(nodes, id, st, cf) ==
  LET r == KidsOf(nodes, id, st, cf)
      level == nodes[id].level
      hc == HEADCHARS[Min2(level, 6)]
      lines == SplitChar(r.o, NL)
      width == FoldLeft(LAMBDA w, l : Max2(w, DisplayWidth(l)), 4, lines)      \* docutils is not sure about shorter ones
      rule == [i \in 1..(IF r.o = << >> THEN 0 ELSE width) |-> hc[1]]
  IN CASE cf.target = "creole"  -> Out([i \in 1..level |-> 61] \o << SP >> \o r.o \o NN, r.st)
       [] cf.target = "textile" -> Out(<< 104 >> \o NatText(level) \o T(". ") \o r.o \o NN, r.st)
       [] cf.target = "markdown" -> Out(<< NL >> \o [i \in 1..level |-> 35] \o << SP >> \o r.o \o << NL >>, r.st)
       [] cf.target = "rest" ->
            Out((IF hc[2] THEN rule \o << NL >> ELSE << >>) \o r.o \o << NL >> \o rule \o NN, r.st)

Code(nodes, id, st, cf) ==
  LET k == KidsOf(nodes, id, st, cf)
      r == Out(OneLine(k.o, cf), k.st)
      tick == IF \E i \in 1..Len(r.o) : r.o[i] = 96 THEN T("``") ELSE T("`")
  IN IF cf.target = "rest" THEN Out(T("``") \o r.o \o T("``"), r.st) ELSE Out(tick \o r.o \o tick, r.st)

BreakText(st, cf) == IF cf.target = "creole" /\ st.inner # << >> THEN T("\\\\") ELSE << NL >>

NextIs(nodes, id, kind) ==
  LET kids == nodes[nodes[id].parent].kids IN \E i \in 2..Len(kids) : kids[i - 1] = id /\ nodes[kids[i]].kind = kind

(* a paragraph; in a list item the next one just starts in a new line *)
Block(nodes, id, st, cf) ==
  LET r == KidsOf(nodes, id, st, cf)
  IN IF cf.target = "markdown" THEN Out(<< NL >> \o r.o \o << NL >>, r.st)
     ELSE IF st.inner = << >> THEN Out(r.o \o NN, r.st)
     ELSE IF NextIs(nodes, id, KP) THEN Out(r.o \o BreakText(st, cf), r.st)
     ELSE r

(* a space beside a block is not needed *)
NeedlessSpace(nodes, id) ==
  LET kids == nodes[nodes[id].parent].kids
      i == CHOOSE i \in 1..Len(kids) : kids[i] = id
      Edge(j) == IF j \in 1..Len(kids) THEN LET k == nodes[kids[j]].kind IN IsBlockTag(k) \/ k = HEADLINE ELSE TRUE
  IN Edge(i - 1) \/ Edge(i + 1)

(* ---- one node ---- *)
Known(nodes, id, st, cf) ==
  LET n == nodes[id]
      k == n.kind
      intable == st.tabs # << >>
      md == cf.target = "markdown"
      data == IF cf.target = "rest" THEN [j \in 1..Len(n.content.v) |-> IF n.content.v[j] = TAB THEN SP ELSE n.content.v[j]] ELSE n.content.v
  IN CASE k = TDATA    -> Out(IF md /\ n.content.v = << SP >> /\ NeedlessSpace(nodes, id) THEN << >> ELSE data, st)
       [] k \in {TENTREF, TCHARREF} -> Out(RefText(n), st)
       [] k = KP       -> Block(nodes, id, st, cf)
       [] IsTypeface(cf.target, k) -> Wrapped(nodes, id, st, cf, Typeface[cf.target][k][1], Typeface[cf.target][k][2])
       [] k = KA       -> LinkNode(nodes, id, st, cf)
       [] k = TIMG     -> ImageNodeH(n, st, cf)
       [] k = TBR      -> Out(BreakText(st, cf), st)
       [] k = THR      -> Out(IF md THEN T("\n----\n") ELSE T("----\n\n"), st)
       [] k = HEADLINE -> Headline(nodes, id, st, cf)
       [] k \in {BLOCKPRE, INLINEPRE} -> Out(PreText(n, cf), st)
       [] k \in {TUL, TOL} -> IF md THEN MdList(nodes, id, st, cf)
                              ELSE IF cf.target = "rest" THEN RestList(nodes, id, st, cf)
                              ELSE ListNode(nodes, id, st, cf)
       [] k = KLIST /\ md -> KidsOf(nodes, id, st, cf)
       [] k = TLI      -> Item(nodes, id, st, cf)
       [] k = KTABLE   -> TableNode(nodes, id, st, cf)
       [] k = KTR /\ intable -> RowNodeH(nodes, id, st, cf)
       [] k \in {KTH, KTD} /\ intable -> CellNode(nodes, id, st, cf)
       [] k \in {KTR, KTH, KTD, KSPAN} -> Content(nodes, id, st, cf)
       [] k = KDIV -> LET r == Content(nodes, id, st, cf)
                          gap == IF md THEN IF Inside(nodes, id, {TLI, KTH, KTD}) THEN << >> ELSE << NL >> ELSE TableGap(nodes, id, cf)
                      IN Out(gap \o r.o, r.st)
       [] k = KCODE /\ cf.target \in {"rest", "markdown"} -> Code(nodes, id, st, cf)
       [] OTHER        -> Unknown(nodes, id, st, cf)

FlushSubs(st) == [o |-> Join(st.subs, << NL >>) \o NN, st |-> [st EXCEPT !.subs = << >>]]

Node(nodes, id, st, cf) ==
  LET n == nodes[id]
      isTag == n.kind \in Internal /\ ~n.content.has /\ n.level = NoLevel
      flush == cf.target = "rest" /\ st.subs # << >> /\ n.parent = 1
      f == IF flush THEN FlushSubs(st) ELSE Out(<< >>, st)
      r == IF isTag THEN Unknown(nodes, id, f.st, cf) ELSE Known(nodes, id, f.st, cf)
  IN Out(f.o \o r.o, [r.st EXCEPT !.last = id])

Document(nodes, cf) ==
  LET r == KidsOf(nodes, 1, NewSt, cf)
      rest == cf.target = "rest" /\ r.st.subs # << >>
      all == IF rest THEN r.o \o (IF EndsWith(r.o, NN) THEN << >> ELSE NN) \o FlushSubs(r.st).o ELSE r.o
  IN [exc |-> r.st.exc, out |-> IF r.st.exc # "" THEN << >> ELSE IF cf.target = "rest" THEN RStrip(all) ELSE Strip(all)]

HtmlTo(raw, cf) == Document(ParseHtml(raw, cf.asis), cf)
=============================================================================
