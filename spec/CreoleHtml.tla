----------------------------- MODULE CreoleHtml -----------------------------
(***************************************************************************)
(* The html code of a document tree.                                       *)
(*                                                                         *)
(* Everything is emitted in document order while a state tc is threaded    *)
(* through: the table of contents, whether something was written to        *)
(* stderr, and whether an exception leaves the conversion.                 *)
(*                                                                         *)
(* env: [macros |-> "none" | "std" | "usertoc" | "example",                *)
(*       verbose |-> 0..3, strict, codes: see Macros.tla]                   *)
(* The macros "html", "echo", "boom", "num" and "nokw" are the ones the    *)
(* test environment provides; every macro call is a call with keyword      *)
(* arguments, so their results are functions of the keyword arguments.     *)
(* env.asis: the behaviour with the defects that are listed as known       *)
(* findings (known_findings.json), instead of the intended behaviour.      *)
(***************************************************************************)
EXTENDS CreoleTree, Macros

WILD == -1      \* matches any text: messages that the Python runtime makes

STag(tag) == << 60 >> \o tag \o << 62 >>
ETag(tag) == << 60, 47 >> \o tag \o << 62 >>
Elem(tag, inner) == STag(tag) \o inner \o ETag(tag)
Attr(name, value) == << 32 >> \o name \o << 61, 34 >> \o EscapeAttr(value) \o << 34 >>
Tabs(n) == [i \in 1..n |-> TAB]

H_P == T("p")  H_PRE == T("pre")  H_CODE == T("code")  H_A == T("a")  H_LI == T("li")
H_UL == T("ul")  H_OL == T("ol")  H_HREF == T("href")  H_NAME == T("name")
H_BR == T("<br />\n")  H_HR == T("<hr />\n")
H_TABLE == T("table")  H_TR == T("tr")  H_TD == T("td")  H_TH == T("th")

TOCMARK == T("<<toc>>")
TOCAGAIN == T("&lt;&lt;toc&gt;&gt;")

------------------------------------------------------- (* macros: the calls *)
NONE == [t |-> "none", v |-> T("None")]
ValText(v) == IF v.t = "none" THEN T("None") ELSE v.v

Ret(v) == [k |-> "ret", v |-> v]
Exc(msg, type) == [k |-> "exc", msg |-> msg, type |-> type]

EchoText(kw) ==
  LET s == SortByKey(kw)
  IN Concat([i \in 1..Len(s) |->
       << 91 >> \o Escape(s[i].k) \o << 124 >> \o
       (CASE s[i].v.t = "str" -> T("s") [] s[i].v.t = "int" -> T("i")
          [] s[i].v.t = "bool" -> T("b") [] s[i].v.t = "none" -> T("n"))
       \o << 124 >> \o Escape(ValText(s[i].v)) \o << 93 >>])

KwOf(kw, name) == LET i == Lookup(kw, name) IN IF i = 0 THEN NONE ELSE kw[i].v
OnlyText(kw) == \A i \in 1..Len(kw) : kw[i].k = T("text")

StdMacros == {"html", "echo", "boom", "num", "nokw"}
ExampleMacros == {"html", "pre", "code"}
MacroId(name) ==
  LET fits == {m \in StdMacros \cup ExampleMacros \cup {"toc"} : T(m) = name} IN
  IF fits = {} THEN "unknown" ELSE CHOOSE m \in fits : TRUE

StdCall(id, kw) ==
  CASE id = "echo" -> Ret([t |-> "str", v |-> EchoText(kw)])
    [] id = "html" -> IF OnlyText(kw) THEN Ret(KwOf(kw, T("text"))) ELSE Exc(<< WILD >>, "TypeError")
    [] id = "nokw" -> IF OnlyText(kw) THEN Ret([t |-> "str", v |-> T("nokw")]) ELSE Exc(<< WILD >>, "TypeError")
    [] id = "num"  -> Ret([t |-> "int", v |-> T("42")])
    [] id = "boom" -> Exc(T("boom <&> !"), "ValueError")
    [] id = "toc"  -> Ret([t |-> "str", v |-> T("[my toc]")])         \* a user defined <<toc>>

(* the macros of creole.shared.example_macros *)
ExampleCall(id, kw, env) ==
  LET str(v) == [t |-> "str", v |-> v]
      text == KwOf(kw, T("text")).v
      none == KwOf(kw, T("text")).t # "str"          \* a tag without content
      ext == KwOf(kw, T("ext"))
  IN CASE id = "html" -> StdCall(id, kw)
       [] id = "pre" -> IF ~OnlyText(kw) THEN Exc(<< WILD >>, "TypeError")
                        ELSE IF none THEN Exc(<< WILD >>, "AttributeError")
                        ELSE Ret(str(PreMacro(text)))
       [] id = "code" -> IF Len(kw) # 2 \/ ext.t # "str" THEN Exc(<< WILD >>, "TypeError")
                         ELSE IF none THEN Exc(<< WILD >>, "AttributeError")
                         ELSE Ret(str(CodeMacro(env.codes, ext.v, text)))

HasMacro(env, id) ==
  \/ env.macros = "example" /\ id \in ExampleMacros
  \/ env.macros \in {"std", "usertoc"} /\ id \in StdMacros
  \/ env.macros = "usertoc" /\ id = "toc"

(* the builtin table of contents macro *)
TocInt(v) ==        \* << >> if v is no number
  IF v.t = "int" THEN v.v ELSE IF v.t = "bool" THEN (IF v.v = T("True") THEN T("1") ELSE T("0"))
  ELSE IF v.t = "str" THEN ParseInt(v.v) ELSE << >>
TocCall(kw, tc) ==
  LET depth == KwOf(kw, T("depth")) IN
  IF Lookup(kw, T("self")) # 0 THEN [r |-> Exc(<< WILD >>, "TypeError"), tc |-> tc]
  ELSE IF tc.created THEN [r |-> Ret([t |-> "str", v |-> TOCAGAIN]), tc |-> tc]
  ELSE IF depth.t = "none" THEN [r |-> Ret([t |-> "str", v |-> TOCMARK]), tc |-> [tc EXCEPT !.created = TRUE]]
  ELSE LET n == TocInt(depth) IN
       IF n = << >> THEN [r |-> Exc(<< WILD >>, "ValueError"), tc |-> tc]
       ELSE [r |-> Ret([t |-> "str", v |-> TOCMARK]),
             tc |-> [tc EXCEPT !.created = TRUE, !.limited = TRUE, !.max = IntOf(n)]]

Err(env, tc, msg, traceback) ==
  [h |-> IF env.verbose > 0 THEN T("[Error: ") \o msg \o T("]\n") ELSE << >>,
   tc |-> IF env.verbose > 1 /\ traceback THEN [tc EXCEPT !.err = TRUE] ELSE tc]

EmitMacro(n, env, tc) ==
  LET args == StringToDict(n.args)
      kw == Put(args.d, T("text"), n.text)
      id == MacroId(n.name)
      toc == id = "toc" /\ tc.active
      known == toc \/ HasMacro(env, id)
      tcall == TocCall(kw, tc)
      call == IF toc THEN tcall.r ELSE IF env.macros = "example" THEN ExampleCall(id, kw, env) ELSE StdCall(id, kw)
      tc2 == IF toc THEN tcall.tc ELSE tc
      pre == T("Macro '") \o n.name \o T("' ")
  IN IF ~args.ok
     THEN Err(env, tc, T("Wrong macro arguments: ")
                       \o (IF env.asis THEN JsonStr(n.args) ELSE Escape(JsonStr(n.args)))   \* known finding F1
                       \o T(" for macro '") \o n.name
                       \o T("' (maybe wrong macro tag syntax?)"), TRUE)
     ELSE IF ~known THEN Err(env, tc, pre \o T("doesn't exist"), TRUE)
     ELSE IF call.k = "exc" THEN
            IF call.type = "TypeError" /\ env.verbose > 2
            THEN [h |-> << >>, tc |-> [tc2 EXCEPT !.raised = TRUE]]
            ELSE Err(env, tc2, pre \o T("error: ") \o Escape(call.msg), TRUE)
     ELSE IF call.v.t # "str" THEN
            Err(env, tc2, pre \o T("doesn't return a unicode string!") \o
                (IF env.verbose > 1
                 THEN Escape(T(" - returns: ") \o ValText(call.v) \o T(", type <class '")
                             \o (IF call.v.t = "int" THEN T("int") ELSE T("NoneType")) \o T("'>"))
                 ELSE << >>), FALSE)
     ELSE [h |-> call.v.v \o (IF n.block THEN << NL >> ELSE << >>), tc |-> tc2]

------------------------------------------------------------------ (* images *)
SizeSplit(text) ==      \* "title|WIDTHxHEIGHT" in escaped text
  LET bar == FindChar(text, 124, 1)
      x == FindChar(text, 120, bar + 1)
      w == ParseInt(SubSeq(text, bar + 1, x - 1))
      h == ParseInt(SubSeq(text, x + 1, Len(text)))
  IN IF bar = 0 \/ x = 0 THEN No
     ELSE IF w = << >> \/ h = << >> THEN No
     ELSE [ok |-> TRUE, title |-> SubSeq(text, 1, bar - 1), w |-> w, h |-> h]

RawAttr(name, v) == << 32 >> \o name \o << 61, 34 >> \o v \o << 34 >>
EmitImage(n, env) ==
  LET sz == IF env.strict THEN No ELSE SizeSplit(EscapeAttr(n.text))
      title == IF ~sz.ok THEN EscapeAttr(n.text)
               ELSE IF sz.title = << >> THEN EscapeAttr(n.target) ELSE sz.title
  IN T("<img") \o Attr(T("src"), n.target) \o RawAttr(T("title"), title) \o RawAttr(T("alt"), title)
     \o (IF sz.ok THEN RawAttr(T("width"), sz.w) \o RawAttr(T("height"), sz.h) ELSE << >>) \o T(" />")

------------------------------------------------------------------- (* nodes *)
(* where: [k |-> "item", level] | [k |-> "cell"] | [k |-> "other"]: what a break is indented for *)
RECURSIVE EmitNode(_, _, _, _)

(* Emit each of the parts, one after the other; nothing more after an exception *)
InOrder(parts, tc, Emit1(_, _)) ==
  FoldLeft(LAMBDA acc, p : IF acc.tc.raised THEN acc
                           ELSE LET r == Emit1(p, acc.tc) IN [h |-> acc.h \o r.h, tc |-> r.tc],
           [h |-> << >>, tc |-> tc], parts)

EmitKids(kids, where, env, tc) == InOrder(kids, tc, LAMBDA n, t : EmitNode(n, where, env, t))

EmitItem(item, level, env, tc) ==
  LET r == EmitKids(item, [k |-> "item", level |-> level + 1], env, tc)
  IN [h |-> << NL >> \o Tabs(level + 1) \o STag(H_LI) \o r.h \o ETag(H_LI), tc |-> r.tc]

EmitList(lst, nested, env, tc) ==
  LET tag == IF lst.num THEN H_OL ELSE H_UL
      r == InOrder(lst.items, tc, LAMBDA item, t : EmitItem(item, lst.level, env, t))
  IN [h |-> (IF nested THEN << NL >> ELSE << >>) \o Tabs(lst.level) \o STag(tag) \o r.h
            \o << NL >> \o Tabs(lst.level) \o ETag(tag), tc |-> r.tc]

EmitNode(n, where, env, tc) ==
  CASE n.k = "text" -> [h |-> Escape(n.t), tc |-> tc]
    [] n.k = "br" ->
         [h |-> H_BR \o (IF where.k = "item" THEN Tabs(where.level)
                         ELSE IF where.k = "cell" THEN Tabs(2) ELSE << >>), tc |-> tc]
    [] n.k = "mark" -> LET r == EmitKids(n.kids, [k |-> "other"], env, tc)
                       IN [h |-> Elem(n.tag, r.h), tc |-> r.tc]
    [] n.k = "code" -> [h |-> Elem(H_CODE, Escape(n.t)), tc |-> tc]
    [] n.k = "link" ->
         LET r == EmitKids(n.kids, [k |-> "other"], env, tc)
         IN [h |-> << 60, 97 >> \o Attr(H_HREF, n.target) \o << 62 >>
                   \o (IF n.kids = << >> THEN Escape(n.target) ELSE r.h) \o ETag(H_A), tc |-> r.tc]
    [] n.k = "img" -> [h |-> EmitImage(n, env), tc |-> tc]
    [] n.k = "macro" -> EmitMacro(n, env, tc)
    [] n.k = "list" -> EmitList(n, where.k # "root", env, tc)

EmitCell(c, env, tc) ==
  LET r == EmitKids(c.kids, [k |-> "cell"], env, tc)
  IN [h |-> << TAB >> \o Elem(IF c.head THEN H_TH ELSE H_TD, r.h) \o << NL >>, tc |-> r.tc]

EmitRow(row, env, tc) ==
  LET r == InOrder(row, tc, LAMBDA c, t : EmitCell(c, env, t))
  IN [h |-> STag(H_TR) \o << NL >> \o r.h \o ETag(H_TR) \o << NL >>, tc |-> r.tc]

EmitHead(b, tc) ==
  LET h == Elem(<< 104 >> \o NatText(b.level), Escape(b.text))
      in == ~tc.limited \/ b.level <= tc.max
  IN IF ~tc.active THEN [h |-> h \o << NL >>, tc |-> tc]
     ELSE [h |-> << 60, 97 >> \o Attr(H_NAME, b.text) \o << 62 >> \o h \o ETag(H_A) \o << NL >>,
           tc |-> IF in THEN [tc EXCEPT !.heads = Append(@, [level |-> b.level, text |-> b.text])] ELSE tc]

(* one block: what the html emitter appends for it *)
EmitBlock(b, env, tc) ==
  CASE b.k = "nl"   -> [h |-> << NL >>, tc |-> tc]
    [] b.k = "hr"   -> [h |-> H_HR, tc |-> tc]
    [] b.k = "head" -> EmitHead(b, tc)
    [] b.k = "pre"  -> [h |-> Elem(H_PRE, Escape(b.t)) \o << NL >>, tc |-> tc]
    [] b.k = "macro" -> EmitMacro(b, env, tc)
    [] b.k = "list" -> EmitList(b, FALSE, env, tc)
    [] b.k = "para" -> LET r == EmitKids(b.kids, [k |-> "other"], env, tc)
                       IN [h |-> Elem(H_P, r.h) \o << NL >>, tc |-> r.tc]
    [] b.k = "table" -> LET r == InOrder(b.rows, tc, LAMBDA row, t : EmitRow(row, env, t))
                        IN [h |-> STag(H_TABLE) \o << NL >> \o r.h \o ETag(H_TABLE) \o << NL >>, tc |-> r.tc]

------------------------------------------------------- (* table of contents *)
(* the lists that are opened from depth d to depth n, or closed *)
TocUp(d, n) == FlattenSeq([i \in 1..(n - d) |-> Tabs(d + i - 1) \o T("<ul>\n")])
TocDown(d, n) == FlattenSeq([i \in 1..(d - n) |-> Tabs(d - i) \o T("</ul>\n")])

TocItem(hd, d) ==
  (IF hd.level > d THEN TocUp(d, hd.level) ELSE TocDown(d, hd.level))
  \o Tabs(hd.level) \o T("<li><a") \o RawAttr(H_HREF, << 35 >> \o EscapeAttr(hd.text)) \o << 62 >>
  \o Escape(hd.text) \o T("</a></li>\n")
TocHtml(heads) ==
  LET Depth(i) == IF i = 0 THEN 1 ELSE heads[i].level
  IN T("<ul>\n") \o FlattenSeq([i \in 1..Len(heads) |-> TocItem(heads[i], Depth(i - 1))])
     \o TocDown(Depth(Len(heads)), 1) \o T("</ul>")

PTOC == T("<p><<toc>></p>")
PlaceToc(doc, tc) ==
  IF ~tc.active THEN doc
  ELSE IF HasText(doc, PTOC) THEN SubstFirst(doc, PTOC, TocHtml(tc.heads))
  ELSE SubstFirst(doc, TOCMARK, TocHtml(tc.heads))

------------------------------------------------------------- (* used macros *)
RECURSIVE UsesToc(_)
UsesToc(n) ==
  CASE n.k = "macro" -> n.name = T("toc")
    [] n.k \in {"mark", "para"} -> \E i \in 1..Len(n.kids) : UsesToc(n.kids[i])
    [] n.k = "list" -> \E i \in 1..Len(n.items) : \E j \in 1..Len(n.items[i]) : UsesToc(n.items[i][j])
    [] n.k = "table" -> \E i \in 1..Len(n.rows) : \E j \in 1..Len(n.rows[i]) :
                          \E x \in 1..Len(n.rows[i][j].kids) : UsesToc(n.rows[i][j].kids[x])
    [] OTHER -> FALSE

NewToc(tree, env) ==
  [active |-> env.macros # "usertoc" /\ \E i \in 1..Len(tree) : UsesToc(tree[i]),
   created |-> FALSE, limited |-> FALSE, max |-> 0, heads |-> << >>, err |-> FALSE, raised |-> FALSE]
=============================================================================
