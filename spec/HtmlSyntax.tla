----------------------------- MODULE HtmlSyntax -----------------------------
(***************************************************************************)
(* html source text: cutting out preformatted areas, removing needless     *)
(* whitespace, and splitting the rest into tags, text and references.      *)
(***************************************************************************)
EXTENDS PyText, EntityTable, Html5Table

NoM == [ok |-> FALSE]
BolH(s, i) == i = 1 \/ At(s, i - 1) = NL
LastNlIn(s, a, b) == LET p == ScanBack(b, a, LAMBDA k : s[k] # NL) IN IF p <= a THEN 0 ELSE p - 1
LastEolIn(s, a, e) == IF e = Len(s) + 1 THEN e ELSE LastNlIn(s, a, e)

-------------------------------------------- (* preformatted areas: cut out *)
PRE == T("<pre>")  PREE == T("</pre>")

(* a </pre> that is alone on its line, at or behind q *)
PreCloseLine(s, i) ==
  LET p == Scan(s, i, LAMBDA k : s[k] = 60 /\ BolH(s, k) /\ StartsAt(s, k, PREE)
                                 /\ LastEolIn(s, k + 6, WsEnd(s, k + 6)) # 0)
  IN IF p > Len(s) THEN 0 ELSE p

PreBlockTagAt(s, i) ==
  IF ~BolH(s, i) \/ ~StartsAt(s, i, PRE) THEN NoM
  ELSE LET j == LastEolIn(s, i + 5, WsEnd(s, i + 5))
           q == IF j = 0 THEN 0 ELSE PreCloseLine(s, j)
       IN IF q = 0 THEN NoM ELSE [ok |-> TRUE, to |-> WsEnd(s, q + 6), text |-> Slice(s, j, q)]

PreInlineTagAt(s, i) ==
  LET q == IF StartsAt(s, i, PRE) THEN Find(s, PREE, i + 5) ELSE 0 IN
  IF q = 0 THEN NoM ELSE [ok |-> TRUE, to |-> q + 6, text |-> Slice(s, i + 5, q)]

Placeholder(name, id) == T("<") \o name \o T(" type=\"pre\" id=\"") \o NatText(id) \o T("\" />")
BLOCKDATA == T("blockdata")  INLINEDATA == T("inlinedata")

(* cut: [s |-> the text with placeholders, pres |-> the areas: [kind, text]] *)
CutStep(s, acc, i, block) ==
  LET p == Find(s, PRE, i)
      m == IF block THEN PreBlockTagAt(s, p) ELSE PreInlineTagAt(s, p)
      name == IF block THEN BLOCKDATA ELSE INLINEDATA
  IN IF p = 0 THEN [acc EXCEPT !.to = Len(s) + 1, !.s = @ \o SubSeq(s, i, Len(s))]
     ELSE IF m.ok
     THEN [to |-> m.to, s |-> acc.s \o Slice(s, i, p) \o Placeholder(name, Len(acc.pres)),
           pres |-> Append(acc.pres, [name |-> name, text |-> m.text])]
     ELSE [acc EXCEPT !.to = p + 1, !.s = @ \o Slice(s, i, p + 1)]
Cut(s, pres, block) ==
  Walk(1, Len(s), [to |-> 1, s |-> << >>, pres |-> pres], LAMBDA acc, i : CutStep(s, acc, i, block))

CutPre(s) == LET a == Cut(s, << >>, TRUE)
                 b == Cut(a.s, a.pres, FALSE)
             IN [s |-> b.s, pres |-> b.pres]

-------------------------------------------------- (* needless whitespace *)
BlockTags == {T("address"), T("blockquote"), T("center"), T("dir"), T("div"), T("dl"), T("fieldset"),
  T("form"), T("h1"), T("h2"), T("h3"), T("h4"), T("h5"), T("h6"), T("hr"), T("ins"), T("isindex"),
  T("men"), T("noframes"), T("noscript"), T("ul"), T("ol"), T("li"), T("table"), T("th"), T("tr"),
  T("td"), T("p"), T("pre"), T("br")}
IsBlockTag(k) == k \in BlockTags

JoinLines(s) == LET l == SplitChar(Strip(s), NL) IN Join([i \in 1..Len(l) |-> Strip(l[i])], << SP >>)

NameEnd(s, i) == Scan(s, i, LAMBDA k : IsWs(s[k]) \/ s[k] \in {47, 62})     \* end of a run without space, slash and >

(* the whitespace around a tag: kept as one space on one side, or dropped *)
StripTagAt(s, p) ==     \* p: position of a "<"
  LET slash == At(s, p + 1) = 47
      a0 == IF slash THEN p + 2 ELSE p + 1
      e0 == NameEnd(s, a0)
      end == slash /\ e0 > a0
      a == IF end THEN a0 ELSE p + 1
      e == NameEnd(s, a)
      g == FindChar(s, 62, e)
      self == g > e /\ s[g - 1] = 47
  IN IF e = a \/ g = 0 THEN NoM
     ELSE [ok |-> TRUE, g |-> g, name |-> Slice(s, a, e), end |-> end, self |-> self]

(* tags without a content *)
VOID == LET n == << "area", "base", "br", "col", "embed", "hr", "img", "input", "link", "meta", "param", "source",
                    "track", "wbr" >> IN {T(n[i]) : i \in 1..Len(n)}

(* asis: only a tag that is written with a slash is taken as empty (known finding F4) *)
StripStep(s, asis, acc, i) ==      \* everything before i is done (and was no matched whitespace)
  LET p == FindChar(s, 60, i)
      m == IF p = 0 THEN NoM ELSE StripTagAt(s, p)
      self == m.ok /\ (m.self \/ (~asis /\ Lower(m.name) \in VOID))
      b == ScanBack(p, i, LAMBDA k : IsWs(s[k]))
      e == WsEnd(s, m.g + 1)
      before == b < p
      after == e > m.g + 1
      pad == ~IsBlockTag(Lower(m.name))
      pre == pad /\ ~m.end /\ (before \/ (~self /\ after))
      post == pad /\ ((m.end /\ (before \/ after)) \/ (~m.end /\ self /\ after))
  IN IF p = 0 THEN [to |-> Len(s) + 1, out |-> acc.out \o SubSeq(s, i, Len(s))]
     ELSE IF ~m.ok THEN [to |-> p + 1, out |-> acc.out \o Slice(s, i, p + 1)]
     ELSE [to |-> e, out |-> acc.out \o Slice(s, i, b) \o (IF pre THEN << SP >> ELSE << >>) \o Slice(s, p, m.g + 1)
                                \o (IF post THEN << SP >> ELSE << >>)]

StripHtml(raw, asis) ==
  LET s == JoinLines(raw)
      w == Walk(1, Len(s), [to |-> 1, out |-> << >>], LAMBDA acc, i : StripStep(s, asis, acc, i))
  IN w.out

(* the text the tags are searched in *)
Clean(raw, asis) == LET c == CutPre(Strip(raw)) IN [s |-> StripHtml(c.s, asis), pres |-> c.pres]

------------------------------------------------------- (* character references *)
IsHex(c) == IsDigit(c) \/ (c >= 97 /\ c <= 102) \/ (c >= 65 /\ c <= 70)
HexVal(c) == IF IsDigit(c) THEN c - 48 ELSE IF c >= 97 THEN c - 87 ELSE c - 55
HexEnd(s, i) == Scan(s, i, LAMBDA k : ~IsHex(s[k]))
DigEnd(s, i) == Scan(s, i, LAMBDA k : ~IsDigit(s[k]))
NumOf(s, base) == FoldLeft(LAMBDA n, c : n * base + HexVal(c), 0, s)
LStripZero(s) == SubSeq(s, CharEnd(s, 48, 1), Len(s))
REPL == 65533
(* the number of a reference, -1 if it is too big *)
RefNum(digits, base) ==
  LET d == LStripZero(digits) IN
  IF Len(d) > (IF base = 16 THEN 6 ELSE 7) THEN -1 ELSE NumOf(d, base)
CodePoint(digits, base) ==
  LET n == RefNum(digits, base) IN
  IF n <= 0 \/ n > 1114111 \/ (n >= 55296 /\ n <= 57343) THEN REPL ELSE n

NamedChar(name) ==      \* << >> if unknown; a non breaking space becomes a space
  IF name = T("nbsp") THEN << SP >> ELSE IF KnownEntity(name) THEN << EntityChar(name) >> ELSE << >>

AlnumEnd(s, i) == Scan(s, i, LAMBDA k : ~IsAlnum(s[k]))

(* a terminated reference at i (s[i] is "&") *)
RefAt(s, i) ==
  IF At(s, i + 1) = 35 THEN
    LET hex == At(s, i + 2) \in {120, 88}
        a == IF hex THEN i + 3 ELSE i + 2
        e == IF hex THEN HexEnd(s, a) ELSE DigEnd(s, a)
    IN IF e > a /\ At(s, e) = 59
       THEN [ok |-> TRUE, to |-> e + 1, chars |-> << CodePoint(Slice(s, a, e), IF hex THEN 16 ELSE 10) >>]
       ELSE NoM
  ELSE IF IsAlpha(At(s, i + 1)) THEN
    LET e == AlnumEnd(s, i + 1)
        c == NamedChar(Slice(s, i + 1, e))
    IN IF At(s, e) = 59 /\ c # << >> THEN [ok |-> TRUE, to |-> e + 1, chars |-> c] ELSE NoM
  ELSE NoM

DeentityStep(s, acc, i) ==
  LET p == FindChar(s, 38, i)
      m == RefAt(s, p)
  IN IF p = 0 THEN [to |-> Len(s) + 1, out |-> acc.out \o SubSeq(s, i, Len(s))]
     ELSE IF m.ok THEN [to |-> m.to, out |-> acc.out \o Slice(s, i, p) \o m.chars]
     ELSE [to |-> p + 1, out |-> acc.out \o Slice(s, i, p + 1)]
(* replace all references in preformatted text *)
Deentity(s) ==
  LET w == Walk(1, Len(s), [to |-> 1, out |-> << >>], LAMBDA acc, i : DeentityStep(s, acc, i)) IN w.out

(* references in attribute values follow the html 5 rules *)
LegacyNames == << "AElig", "AMP", "Aacute", "Acirc", "Agrave", "Aring", "Atilde", "Auml", "COPY", "Ccedil", "ETH",
  "Eacute", "Ecirc", "Egrave", "Euml", "GT", "Iacute", "Icirc", "Igrave", "Iuml", "LT", "Ntilde", "Oacute", "Ocirc",
  "Ograve", "Oslash", "Otilde", "Ouml", "QUOT", "REG", "THORN", "Uacute", "Ucirc", "Ugrave", "Uuml", "Yacute", "aacute",
  "acirc", "acute", "aelig", "agrave", "amp", "aring", "atilde", "auml", "brvbar", "ccedil", "cedil", "cent", "copy",
  "curren", "deg", "divide", "eacute", "ecirc", "egrave", "eth", "euml", "frac12", "frac14", "frac34", "gt", "iacute",
  "icirc", "iexcl", "igrave", "iquest", "iuml", "laquo", "lt", "macr", "micro", "middot", "nbsp", "not", "ntilde",
  "oacute", "ocirc", "ograve", "ordf", "ordm", "oslash", "otilde", "ouml", "para", "plusmn", "pound", "quot", "raquo",
  "reg", "sect", "shy", "sup1", "sup2", "sup3", "szlig", "thorn", "times", "uacute", "ucirc", "ugrave", "uml", "uuml",
  "yacute", "yen", "yuml" >>
LegacySet == {T(LegacyNames[i]) : i \in 1..Len(LegacyNames)}
Html5Known(n) ==    \* n: with or without the terminating semicolon
  IF n = << >> THEN FALSE
  ELSE IF n[Len(n)] = 59 THEN IsHtml5Name(SubSeq(n, 1, Len(n) - 1)) ELSE n \in LegacySet
Html5Char(n) == Html5Value(IF n[Len(n)] = 59 THEN SubSeq(n, 1, Len(n) - 1) ELSE n)

Win1252 == << 8364, 129, 8218, 402, 8222, 8230, 8224, 8225, 710, 8240, 352, 8249, 338, 141, 381, 143,
              144, 8216, 8217, 8220, 8221, 8226, 8211, 8212, 732, 8482, 353, 8250, 339, 157, 382, 376 >>
Html5Num(n) ==
  IF n = 0 THEN << REPL >> ELSE IF n = 13 THEN << 13 >>
  ELSE IF n >= 128 /\ n <= 159 THEN << Win1252[n - 127] >>
  ELSE IF n = -1 \/ n > 1114111 \/ (n >= 55296 /\ n <= 57343) THEN << REPL >>
  ELSE IF (n >= 1 /\ n <= 8) \/ n = 11 \/ (n >= 14 /\ n <= 31) \/ n = 127
          \/ (n >= 64976 /\ n <= 65007) \/ n % 65536 >= 65534 THEN << >>
  ELSE << n >>

NameRefEnd(s, i, n) == Min2(i + n, Scan(s, i, LAMBDA k : s[k] \in {9, 10, 12, 32, 60, 38, 35, 59}))
LongestKnown(n, x) ==
  LET fits == {k \in 2..x : Html5Known(SubSeq(n, 1, k))} IN IF fits = {} THEN 0 ELSE Max(fits)
Semi(s, e) == IF At(s, e) = 59 THEN e + 1 ELSE e

UnescapeStep(s, acc, i) ==
  LET p == FindChar(s, 38, i)
      hash == At(s, p + 1) = 35
      hex == hash /\ At(s, p + 2) \in {120, 88}
      a == IF hex THEN p + 3 ELSE p + 2
      e == IF hex THEN HexEnd(s, a) ELSE DigEnd(s, a)
      ne == NameRefEnd(s, p + 1, 32)
      name == Slice(s, p + 1, Semi(s, ne))
      known == IF Html5Known(name) THEN Len(name) ELSE LongestKnown(name, Len(name) - 1)
      To(to, text) == [to |-> to, out |-> acc.out \o text]
  IN IF p = 0 THEN To(Len(s) + 1, SubSeq(s, i, Len(s)))
     ELSE IF hash THEN
       IF e = a THEN To(p + 1, Slice(s, i, p + 1))
       ELSE To(Semi(s, e), Slice(s, i, p) \o Html5Num(RefNum(Slice(s, a, e), IF hex THEN 16 ELSE 10)))
     ELSE IF ne = p + 1 THEN To(p + 1, Slice(s, i, p + 1))
     ELSE IF known = 0 THEN To(Semi(s, ne), Slice(s, i, Semi(s, ne)))
     ELSE To(Semi(s, ne), Slice(s, i, p) \o Html5Char(SubSeq(name, 1, known)) \o SubSeq(name, known + 1, Len(name)))
Unescape(s) ==
  LET w == Walk(1, Len(s), [to |-> 1, out |-> << >>], LAMBDA acc, i : UnescapeStep(s, acc, i)) IN w.out

------------------------------------------------------------------- (* tags *)
TagWs(c) == c \in {9, 10, 13, 12, 32}
TagWsEnd(s, i) == Scan(s, i, LAMBDA k : ~TagWs(s[k]))
TagSepEnd(s, i) == Scan(s, i, LAMBDA k : ~(TagWs(s[k]) \/ s[k] = 47))      \* whitespace and slashes
TagNameEnd(s, i) == Scan(s, i, LAMBDA k : TagWs(s[k]) \/ s[k] = 47 \/ s[k] = 62)
AttrNameEnd(s, i) == Scan(s, i, LAMBDA k : TagWs(s[k]) \/ s[k] \in {47, 61, 62})
BareEnd(s, i) == Scan(s, i, LAMBDA k : TagWs(s[k]) \/ s[k] = 62)

(* an attribute at k: name, and maybe a value; to: behind it *)
AttrAt(s, k) ==
  IF ~(TagWs(At(s, k - 1)) \/ At(s, k - 1) \in {34, 39, 47})
     \/ k > Len(s) \/ TagWs(s[k]) \/ s[k] \in {47, 62} THEN NoM
  ELSE LET n == AttrNameEnd(s, k + 1)
           eq == TagWsEnd(s, n)
           v == TagWsEnd(s, eq + 1)
           q == At(s, v)
           close == IF q \in {34, 39} THEN FindChar(s, q, v + 1) ELSE 0
           name == Lower(Slice(s, k, n))
           none == [ok |-> TRUE, name |-> name, has |-> FALSE, value |-> << >>, to |-> n]
       IN IF At(s, eq) # 61 THEN none
          ELSE IF q \in {34, 39} THEN
            IF close # 0
            THEN [ok |-> TRUE, name |-> name, has |-> TRUE, value |-> Unescape(Slice(s, v + 1, close)), to |-> close + 1]
            ELSE IF v > eq + 1   \* the value is empty, a new attribute starts with the quote
            THEN [ok |-> TRUE, name |-> name, has |-> TRUE, value |-> << >>, to |-> v - 1]
            ELSE none
          ELSE [ok |-> TRUE, name |-> name, has |-> TRUE, value |-> Unescape(Slice(s, v, BareEnd(s, v))), to |-> BareEnd(s, v)]

AttrsStep(s, acc, b) ==        \* b: where the separators before an attribute begin
  LET k == TagSepEnd(s, b)
      m == AttrAt(s, k)
  IN IF acc.end # 0 THEN acc
     ELSE IF ~m.ok THEN [acc EXCEPT !.end = k, !.sep = b, !.to = Len(s) + 2]
     ELSE [acc EXCEPT !.to = m.to,
             !.attrs = Append(@, [k |-> m.name, v |-> IF m.has THEN [t |-> "str", v |-> m.value]
                                                       ELSE [t |-> "none", v |-> << >>]])]
AttrsFrom(s, b) ==
  Walk(b, Len(s) + 1, [to |-> b, end |-> 0, sep |-> 0, attrs |-> << >>], LAMBDA acc, i : AttrsStep(s, acc, i))

(* a start or end tag whose name begins at a; to = 0 if the tag is not terminated *)
TagAt(s, a) ==
  LET n == TagNameEnd(s, a)
      r == AttrsFrom(s, n)
  IN [to |-> IF At(s, r.end) = 62 THEN r.end + 1 ELSE 0, name |-> Lower(Slice(s, a, n)), attrs |-> r.attrs,
      self |-> r.end > r.sep /\ s[r.end - 1] = 47]

----------------------------------------------------------------- (* tokens *)
RawTextTags == {T("script"), T("style"), T("xmp"), T("iframe"), T("noembed"), T("noframes"), T("plaintext")}
RefTextTags == {T("textarea"), T("title")}

Data(t) == [k |-> "data", t |-> t]
Emit1(ev, to, raw) == [evs |-> << ev >>, to |-> to, raw |-> raw, stuck |-> FALSE]
Skip(to, raw) == [evs |-> << >>, to |-> to, raw |-> raw, stuck |-> FALSE]
Stuck(raw) == [evs |-> << >>, to |-> 0, raw |-> raw, stuck |-> TRUE]

CMT == T("<!--")  CMTE == T("-->")  CMTE2 == T("--!>")  CDATA == T("<![CDATA[")  CDATAE == T("]]>")  DOCTYPE == T("<!doctype")

CommentEnd(s, i) ==
  LET a == Find(s, CMTE, i + 4)
      b == Find(s, CMTE2, i + 4)
  IN IF a # 0 /\ (b = 0 \/ a < b) THEN a + 3
     ELSE IF b # 0 THEN b + 4
     ELSE IF At(s, i + 4) = 62 THEN i + 5
     ELSE IF At(s, i + 4) = 45 /\ At(s, i + 5) = 62 THEN i + 6
     ELSE 0
GtEnd(s, i) == LET p == FindChar(s, 62, i) IN IF p = 0 THEN 0 ELSE p + 1
SkipTo(to, raw) == IF to = 0 THEN Stuck(raw) ELSE Skip(to, raw)

(* where raw text (of <script>, ..) ends:  </name followed by whitespace, / or > *)
RawEnd(s, i, name) ==
  LET Ends(k) == LET c == At(s, k + 2 + Len(name)) IN
        /\ s[k] = 60 /\ At(s, k + 1) = 47
        /\ Lower(SubSeq(s, k + 2, Min2(Len(s), k + 1 + Len(name)))) = name
        /\ (TagWs(c) \/ c \in {47, 62})
      p == Scan(s, i, Ends)
  IN IF p > Len(s) THEN 0 ELSE p

EndTagAt(s, i, raw) ==
  IF FindChar(s, 62, i + 2) = 0 THEN Stuck(raw)
  ELSE IF ~IsAlpha(At(s, i + 2)) THEN Skip(GtEnd(s, i + 2), raw)
  ELSE LET t == TagAt(s, i + 2) IN
       IF t.to = 0 THEN Stuck(raw) ELSE Emit1([k |-> "end", tag |-> t.name], t.to, << >>)

StartTagAt(s, i, raw) ==
  LET t == TagAt(s, i + 1)
      ev == [k |-> IF t.self THEN "self" ELSE "start", tag |-> t.name, attrs |-> t.attrs, src |-> Slice(s, i, t.to)]
      raw2 == IF ~t.self /\ t.name \in RawTextTags \cup RefTextTags THEN t.name ELSE raw
  IN IF t.to = 0 THEN Stuck(raw) ELSE Emit1(ev, t.to, raw2)

EntNameEnd(s, i) == Scan(s, i, LAMBDA k : ~(IsAlnum(s[k]) \/ s[k] \in {45, 46}))
LastPunct(s, a, i) ==       \* the last - or . in (a, i], 0 if there is none
  LET p == ScanBack(i + 1, a + 1, LAMBDA k : ~(s[k] \in {45, 46})) IN IF p <= a + 1 THEN 0 ELSE p - 1

AmpAt(s, i, raw) ==
  IF At(s, i + 1) = 35 THEN
    LET hex == At(s, i + 2) \in {120, 88}
        a == IF hex THEN i + 3 ELSE i + 2
        e == IF hex THEN HexEnd(s, a) ELSE DigEnd(s, a)
    IN IF e > a /\ e <= Len(s) /\ ~IsHex(s[e])
       THEN Emit1([k |-> "charref", t |-> Slice(s, i + 2, e)], Semi(s, e), raw)
       ELSE IF FindChar(s, 59, i) # 0 THEN Emit1(Data(<< 38, 35 >>), i + 2, raw)
       ELSE Stuck(raw)
  ELSE IF IsAlpha(At(s, i + 1)) THEN
    LET e == EntNameEnd(s, i + 1)
        n == IF e <= Len(s) THEN e ELSE LastPunct(s, i + 1, Len(s))
    IN IF n = 0 THEN Stuck(raw)
       ELSE Emit1([k |-> "entityref", t |-> Slice(s, i + 1, n)], Semi(s, n), raw)
  ELSE IF i < Len(s) THEN Emit1(Data(<< 38 >>), i + 1, raw)
  ELSE Stuck(raw)

MarkupAt(s, i, raw) ==
  IF s[i] = 38 THEN AmpAt(s, i, raw)
  ELSE IF IsAlpha(At(s, i + 1)) THEN StartTagAt(s, i, raw)
  ELSE IF At(s, i + 1) = 47 THEN EndTagAt(s, i, raw)
  ELSE IF StartsAt(s, i, CMT) THEN SkipTo(CommentEnd(s, i), raw)
  ELSE IF At(s, i + 1) = 63 THEN SkipTo(GtEnd(s, i + 2), raw)
  ELSE IF At(s, i + 1) = 33 THEN
    IF StartsAt(s, i, CDATA) THEN LET p == Find(s, CDATAE, i + 9) IN SkipTo(IF p = 0 THEN 0 ELSE p + 3, raw)
    ELSE IF Lower(SubSeq(s, i, Min2(Len(s), i + 8))) = DOCTYPE THEN SkipTo(GtEnd(s, i + 9), raw)
    ELSE SkipTo(GtEnd(s, IF At(s, i + 2) = 91 THEN i + 3 ELSE i + 2), raw)
  ELSE IF i < Len(s) THEN Emit1(Data(<< 60 >>), i + 1, raw)
  ELSE Stuck(raw)

NextMarkup(s, i) == Scan(s, i, LAMBDA k : s[k] = 60 \/ s[k] = 38)
NextAmp(s, i, e) == Min2(e, Scan(s, i, LAMBDA k : s[k] = 38))

(* where the text that starts at i ends; 0: nowhere (the raw text is not terminated) *)
TextEnd(s, i, raw) ==
  IF raw = << >> THEN NextMarkup(s, i)
  ELSE IF raw = T("plaintext") THEN Len(s) + 1
  ELSE LET p == RawEnd(s, i, raw)
           e == IF p = 0 THEN Len(s) + 1 ELSE p
           x == IF raw \in RefTextTags THEN NextAmp(s, i, e) ELSE e
       IN IF x = Len(s) + 1 THEN 0 ELSE x

(* one step of the tokenizer: text, or one piece of markup.  Something that is not
   terminated is text: all of the rest in raw text, otherwise its first character *)
TokenAt(s, i, raw) ==
  LET e == TextEnd(s, i, raw) IN
  IF e = 0 THEN Emit1(Data(SubSeq(s, i, Len(s))), Len(s) + 1, raw)
  ELSE IF e > i THEN Emit1(Data(Slice(s, i, e)), e, raw)
  ELSE LET m == MarkupAt(s, i, raw) IN
       IF ~m.stuck THEN m
       ELSE IF raw # << >> THEN Emit1(Data(SubSeq(s, i, Len(s))), Len(s) + 1, raw)
       ELSE Emit1(Data(<< s[i] >>), i + 1, raw)
=============================================================================
