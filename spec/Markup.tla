------------------------------- MODULE Markup -------------------------------
(***************************************************************************)
(* What a browser would see in the html code that a conversion returns:    *)
(* tags, attributes and text.  Independent of how the code was made; the   *)
(* html side properties (well formed, safe, nothing lost) are stated with  *)
(* these operators, on the specified and on the observed html code.        *)
(***************************************************************************)
EXTENDS Text

Refs == << [r |-> T("&amp;"), c |-> 38], [r |-> T("&lt;"), c |-> 60], [r |-> T("&gt;"), c |-> 62], [r |-> T("&quot;"), c |-> 34] >>

(* decoded text; ok is FALSE if a < or > or an & that starts no reference is in it *)
DecodeStep(s, acc, i) ==
  LET p == FirstOfSet(s, {38, 60, 62}, i)
      fits == {k \in 1..4 : StartsAt(s, p, Refs[k].r)}
      k == CHOOSE k \in fits : TRUE
  IN IF p > Len(s) THEN [acc EXCEPT !.to = p, !.t = @ \o SubSeq(s, i, Len(s))]
     ELSE IF fits = {} THEN [ok |-> FALSE, to |-> Len(s) + 1, t |-> << >>]
     ELSE [acc EXCEPT !.to = p + Len(Refs[k].r), !.t = @ \o Slice(s, i, p) \o << Refs[k].c >>]
Decode(s) == Walk(1, Len(s), [ok |-> TRUE, to |-> 1, t |-> << >>], LAMBDA acc, i : DecodeStep(s, acc, i))

MkNameEnd(s, i) == Scan(s, i, LAMBDA k : ~IsAlnum(s[k]))

BadTok == [k |-> "bad", n |-> << >>, a |-> << >>, t |-> << >>]

(* attributes:  name="value" *)
RECURSIVE MkAttrs(_, _, _)
MkAttrs(s, i, acc) ==
  LET e == MkNameEnd(s, i + 1)
      q == FindChar(s, 34, e + 2)
      v == Decode(Slice(s, e + 2, q))
  IN IF At(s, i) # SP \/ e = i + 1 THEN [ok |-> TRUE, to |-> i, a |-> acc]
     ELSE IF At(s, e) # 61 \/ At(s, e + 1) # 34 \/ q = 0 \/ ~v.ok THEN [ok |-> FALSE, to |-> i, a |-> acc]
     ELSE MkAttrs(s, q + 1, Append(acc, [k |-> Slice(s, i + 1, e), v |-> v.t]))

MkTagAt(s, i) ==        \* s[i] is "<"
  LET close == At(s, i + 1) = 47
      a == IF close THEN i + 2 ELSE i + 1
      e == MkNameEnd(s, a)
      m == MkAttrs(s, e, << >>)
      name == Slice(s, a, e)
  IN IF e = a \/ ~m.ok THEN [tok |-> BadTok, to |-> Len(s) + 1]
     ELSE IF close THEN
       IF At(s, e) = 62 THEN [tok |-> [k |-> "close", n |-> name, a |-> << >>, t |-> << >>], to |-> e + 1]
       ELSE [tok |-> BadTok, to |-> Len(s) + 1]
     ELSE IF At(s, m.to) = 62
          THEN [tok |-> [k |-> "open", n |-> name, a |-> m.a, t |-> << >>], to |-> m.to + 1]
     ELSE IF StartsAt(s, m.to, T(" />"))
          THEN [tok |-> [k |-> "void", n |-> name, a |-> m.a, t |-> << >>], to |-> m.to + 3]
     ELSE [tok |-> BadTok, to |-> Len(s) + 1]

LexStep(s, acc, i) ==
  IF s[i] = 60 THEN LET m == MkTagAt(s, i) IN [to |-> m.to, toks |-> Append(acc.toks, m.tok)]
  ELSE LET e == Scan(s, i, LAMBDA k : s[k] = 60)
           d == Decode(Slice(s, i, e))
       IN [to |-> e, toks |-> Append(acc.toks, IF d.ok THEN [k |-> "text", n |-> << >>, a |-> << >>, t |-> d.t] ELSE BadTok)]
Lex(s) == LET w == Walk(1, Len(s), [to |-> 1, toks |-> << >>], LAMBDA acc, i : LexStep(s, acc, i)) IN w.toks

Lexable(toks) == \A i \in 1..Len(toks) : toks[i].k # "bad"

------------------------------------------------------------ (* vocabulary *)
PlainTags == {T(x) : x \in {"p", "pre", "code", "strong", "i", "tt", "u", "sup", "sub", "small", "del",
                            "ul", "ol", "li", "table", "tr", "td", "th"}}
VoidTags == {T("br"), T("hr")}
IsHn(n) == Len(n) >= 2 /\ n[1] = 104 /\ \A i \in 2..Len(n) : IsDigit(n[i])
AttrNames(t) == {t.a[i].k : i \in 1..Len(t.a)}

KnownTok(t) ==
  CASE t.k = "text"  -> TRUE
    [] t.k = "bad"   -> FALSE
    [] t.k = "void"  -> \/ (t.n \in VoidTags /\ t.a = << >>)
                        \/ (t.n = T("img") /\ AttrNames(t) \subseteq {T("src"), T("title"), T("alt"), T("width"), T("height")})
    [] t.k = "close" -> t.n \in PlainTags \/ t.n = T("a") \/ IsHn(t.n)
    [] t.k = "open"  -> \/ ((t.n \in PlainTags \/ IsHn(t.n)) /\ t.a = << >>)
                        \/ (t.n = T("a") /\ (AttrNames(t) = {T("href")} \/ AttrNames(t) = {T("name")}))
(* only tags and attributes that Creole markup has; everything else is text *)
Safe(toks) == \A i \in 1..Len(toks) : KnownTok(toks[i])

------------------------------------------------------- (* nesting of the tags *)
Lists == {T("ul"), T("ol")}
OnlyWs(s) == \A i \in 1..Len(s) : IsWs(s[i])
(* may the token t be a direct child of the element up ("" = top level) *)
MayContain(up, t) ==
  CASE up \in Lists -> (t.k = "open" /\ t.n = T("li")) \/ (t.k = "text" /\ OnlyWs(t.t))
    [] up = T("table") -> (t.k = "open" /\ t.n = T("tr")) \/ (t.k = "text" /\ OnlyWs(t.t))
    [] up = T("tr") -> (t.k = "open" /\ t.n \in {T("td"), T("th")}) \/ (t.k = "text" /\ OnlyWs(t.t))
    [] up \in {T("pre"), T("code")} -> t.k = "text"
    [] OTHER -> t.k = "text" \/ ~(t.n \in {T("li"), T("tr"), T("td"), T("th")})

NestStep(acc, t, strict) ==     \* acc.up: the open elements, innermost last
  LET top == IF acc.up = << >> THEN << >> ELSE acc.up[Len(acc.up)] IN
  IF ~acc.ok \/ t.k = "bad" THEN [acc EXCEPT !.ok = FALSE]
  ELSE IF t.k = "close" THEN
    IF acc.up # << >> /\ top = t.n THEN [acc EXCEPT !.up = SubSeq(@, 1, Len(@) - 1)] ELSE [acc EXCEPT !.ok = FALSE]
  ELSE IF strict /\ ~MayContain(top, t) THEN [acc EXCEPT !.ok = FALSE]
  ELSE IF t.k = "open" THEN [acc EXCEPT !.up = Append(@, t.n)]
  ELSE acc
Nested(toks, strict) ==
  LET w == FoldLeft(LAMBDA acc, t : NestStep(acc, t, strict), [ok |-> TRUE, up |-> << >>], toks) IN w.ok /\ w.up = << >>
WellFormed(toks) == Nested(toks, TRUE)
Balanced(toks) == Nested(toks, FALSE)       \* every tag is closed, in order

------------------------------------------------------------- (* projections *)
Structure(toks) ==      \* tags and attribute names only
  LET tags == SelectSeq(toks, LAMBDA t : t.k # "text")
  IN [i \in 1..Len(tags) |-> << tags[i].k, tags[i].n, [j \in 1..Len(tags[i].a) |-> tags[i].a[j].k] >>]
AllText(toks) ==        \* the text and the attribute values, without whitespace
  NoWs(FlattenSeq([i \in 1..Len(toks) |-> FlattenSeq([j \in 1..Len(toks[i].a) |-> toks[i].a[j].v]) \o toks[i].t]))

(* a is b with some characters removed *)
IsSubseq(a, b) == FoldLeft(LAMBDA n, c : IF n < Len(a) /\ a[n + 1] = c THEN n + 1 ELSE n, 0, b) = Len(a)
Words(s) == SelectSeq(s, IsWord)
Alnums(s) == SelectSeq(s, IsAlnum)
=============================================================================
