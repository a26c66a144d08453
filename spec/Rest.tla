-------------------------------- MODULE Rest --------------------------------
(* rest2html: ReStructuredText to clean html code.
   What the text means is the business of docutils; rest2html shows a document like docutils
   does (its html4css1 writer), but without divs, block quotes, table heads and bodies, and without
   classes, ids and other attributes for style sheets.  Docutils' html code is part of a record. *)
EXTENDS HtmlSyntax

Tok(k, n, a, t) == [k |-> k, n |-> n, a |-> a, t |-> t]
TextTok(t) == Tok("text", << >>, << >>, t)

(* ---- html code as tokens; text with its references resolved *)
TokStep(s, acc, i) ==
  IF s[i] # 60 THEN LET e == Scan(s, i, LAMBDA k : s[k] = 60)
                    IN [to |-> e, toks |-> Append(acc.toks, TextTok(Unescape(Slice(s, i, e))))]
  ELSE LET m == MarkupAt(s, i, << >>)
       IN IF m.stuck THEN [to |-> i + 1, toks |-> Append(acc.toks, TextTok(<< 60 >>))]
          ELSE IF m.evs = << >> THEN [to |-> m.to, toks |-> Append(acc.toks, Tok("comment", << >>, << >>, Slice(s, i, m.to)))]
          ELSE LET e == m.evs[1]
               IN [to |-> m.to, toks |-> Append(acc.toks,
                    IF e.k = "data" THEN TextTok(e.t)
                    ELSE IF e.k = "end" THEN Tok("end", e.tag, << >>, << >>)
                    ELSE Tok(e.k, e.tag, [j \in 1..Len(e.attrs) |-> [k |-> e.attrs[j].k, v |-> e.attrs[j].v.v]], << >>))]
TokensOf(s) == LET w == Walk(1, Len(s), [to |-> 1, toks |-> << >>], LAMBDA acc, i : TokStep(s, acc, i)) IN w.toks

(* ---- what is only there for style sheets *)
Wrappers == {T("div"), T("blockquote"), T("thead"), T("tbody")}
StyleAttrs == {T("class"), T("id"), T("ids"), T("border"), T("frame"), T("rules"), T("start")}
LayoutCols == {T("docinfo-name"), T("docinfo-content"), T("field-name"), T("field-body")}
IsTag(t, n) == t.k \in {"start", "self", "end"} /\ t.n = T(n)
AttrOf(t, name) == IF \E j \in 1..Len(t.a) : t.a[j].k = T(name)
                   THEN t.a[CHOOSE j \in 1..Len(t.a) : t.a[j].k = T(name)].v ELSE << >>
Classes(t) == LET p == SplitChar(AttrOf(t, "class"), SP) IN {p[j] : j \in 1..Len(p)}

Dropped(t) == \/ (t.k \in {"start", "self", "end"} /\ t.n \in Wrappers)
              \/ (IsTag(t, "col") /\ Classes(t) \cap LayoutCols # {})

AlignNames == {"left", "right", "center", "top", "middle", "bottom"}
AlignOf(t) == {a \in AlignNames : T("align-" \o a) \in Classes(t)}

(* attributes that are left, ordered by name (an attribute may be written anywhere) *)
Kept(t) == SortSeq(SelectSeq(t.a, LAMBDA x : ~(x.k \in StyleAttrs)), LAMBDA x, y : TextLess(x.k, y.k))

(* an image is aligned like docutils says with a class of it or of the figure around it *)
WithAlign(acc, t) ==
  LET own == AlignOf(t)
      fig == IF acc.divs # << >> /\ T("figure") \in Classes(acc.divs[Len(acc.divs)]) THEN AlignOf(acc.divs[Len(acc.divs)]) ELSE {}
      al == IF own # {} THEN own ELSE IF acc.ref THEN {} ELSE fig
  IN IF ~IsTag(t, "img") \/ al = {} THEN t
     ELSE [t EXCEPT !.a = Append(@, [k |-> T("align"), v |-> T(CHOOSE a \in al : TRUE)])]

CleanStep(acc, t) ==
  LET divs == IF ~IsTag(t, "div") THEN acc.divs
              ELSE IF t.k = "start" THEN Append(acc.divs, t)
              ELSE SubSeq(acc.divs, 1, Len(acc.divs) - 1)
      ref == IF IsTag(t, "a") THEN t.k = "start" ELSE acc.ref
      x == WithAlign(acc, t)
  IN [divs |-> divs, ref |-> ref,
      out |-> IF Dropped(t) THEN acc.out
              ELSE IF t.k \in {"start", "self"} THEN Append(acc.out, [x EXCEPT !.a = Kept(x)])
              ELSE Append(acc.out, t)]
CleanTokens(toks) == FoldLeft(CleanStep, [divs |-> << >>, ref |-> FALSE, out |-> << >>], toks).out

(* ---- whitespace: one space between inline markup, none beside a block, all of it in <pre> *)
InlineTags == {T(x) : x \in {"a", "em", "strong", "tt", "span", "sup", "sub", "img", "cite", "i", "b", "abbr", "acronym",
                             "kbd", "var", "object", "code", "big", "small", "q", "font"}}
BlockTok(t) == t.k \in {"start", "self", "end", "comment"} /\ ~(t.n \in InlineTags)
MergeStep(acc, t) ==
  IF t.k = "text" /\ acc # << >> /\ acc[Len(acc)].k = "text"
  THEN [acc EXCEPT ![Len(acc)].t = @ \o t.t] ELSE Append(acc, t)
Collapse(s) ==
  FoldLeft(LAMBDA acc, c : IF ~IsWs(c) THEN Append(acc, c) ELSE IF acc # << >> /\ acc[Len(acc)] = SP THEN acc ELSE Append(acc, SP), << >>, s)
Trim(s, left, right) ==
  LET a == IF left /\ s # << >> /\ s[1] = SP THEN SubSeq(s, 2, Len(s)) ELSE s
  IN IF right /\ a # << >> /\ a[Len(a)] = SP THEN SubSeq(a, 1, Len(a) - 1) ELSE a
Spaced(toks) ==
  LET m == FoldLeft(MergeStep, << >>, toks)
      Step(acc, i) ==
        LET t == m[i]
            left == i = 1 \/ BlockTok(m[i - 1])
            right == i = Len(m) \/ BlockTok(m[i + 1])
            x == IF acc.pre > 0 THEN t.t ELSE Trim(Collapse(t.t), left, right)
            pre == IF IsTag(t, "pre") THEN IF t.k = "start" THEN acc.pre + 1 ELSE IF t.k = "end" THEN acc.pre - 1 ELSE acc.pre ELSE acc.pre
        IN [pre |-> pre, out |-> IF t.k # "text" THEN Append(acc.out, t) ELSE IF x = << >> THEN acc.out ELSE Append(acc.out, [t EXCEPT !.t = x])]
  IN FoldLeft(Step, [pre |-> 0, out |-> << >>], [i \in 1..Len(m) |-> i]).out

(* an empty span only carries an id *)
NoSpanStep(acc, t) ==
  IF IsTag(t, "span") /\ t.k = "end" /\ acc # << >> /\ IsTag(acc[Len(acc)], "span") /\ acc[Len(acc)].k = "start"
  THEN SubSeq(acc, 1, Len(acc) - 1) ELSE Append(acc, t)
NoSpans(toks) == FoldLeft(NoSpanStep, << >>, toks)

Shown(html) == Spaced(NoSpans(CleanTokens(TokensOf(html))))

(* ---- no leftovers *)
VoidNames == {T(x) : x \in {"br", "hr", "img", "col", "meta"}}
NestStep(acc, t) ==
  IF ~acc.ok \/ t.k \in {"text", "comment", "self"} \/ (t.n \in VoidNames) THEN acc
  ELSE IF t.k = "start" THEN [acc EXCEPT !.open = Append(@, t.n)]
  ELSE IF acc.open # << >> /\ acc.open[Len(acc.open)] = t.n THEN [acc EXCEPT !.open = SubSeq(@, 1, Len(@) - 1)]
  ELSE [acc EXCEPT !.ok = FALSE]
RestBalanced(toks) == LET x == FoldLeft(NestStep, [ok |-> TRUE, open |-> << >>], toks) IN x.ok /\ x.open = << >>
HasWrapper(toks) == \E i \in 1..Len(toks) : toks[i].k \in {"start", "self", "end"} /\ toks[i].n \in {T("div"), T("blockquote"), T("thead")}
HasStyle(toks) == \E i \in 1..Len(toks) : \E j \in 1..Len(toks[i].a) : toks[i].a[j].k \in {T("class"), T("id"), T("ids"), T("frame"), T("rules")}

(* ---- pypi_rest2html: only links with these schemes *)
Schemes == {T(x) : x \in {"file", "ftp", "gopher", "hdl", "http", "https", "imap", "mailto", "mms", "news", "nntp", "prospero",
                          "rsync", "rtsp", "rtspu", "sftp", "shttp", "sip", "sips", "snews", "svn", "svn+ssh", "telnet",
                          "wais", "irc"}}
UriSchemeC(c) == IsAlnum(c) \/ c \in {43, 45, 46}
SchemeOf(uri) ==
  LET u == SelectSeq(SubSeq(uri, Scan(uri, 1, LAMBDA k : uri[k] > 32), Len(uri)), LAMBDA c : ~(c \in {9, 10, 13}))
      i == FindChar(u, 58, 1)
  IN IF i > 1 /\ IsAlpha(u[1]) /\ \A k \in 1..(i - 1) : UriSchemeC(u[k]) THEN Lower(SubSeq(u, 1, i - 1)) ELSE << >>
AllowedUris(uris) == \A i \in 1..Len(uris) : SchemeOf(uris[i]) \in Schemes
=============================================================================
