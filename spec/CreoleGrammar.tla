---------------------------- MODULE CreoleGrammar ----------------------------
(***************************************************************************)
(* The Creole 1.0 dialect: which markup is recognised at which position.   *)
(*                                                                         *)
(* A scanner  XAt(s, i, ..)  answers for the text s and the position i     *)
(* [ok |-> FALSE] or [ok |-> TRUE, to |-> position behind the markup, ...].*)
(***************************************************************************)
EXTENDS Text

No == [ok |-> FALSE]

Bol(s, i) == i = 1 \/ At(s, i - 1) = NL
Eol(s, i) == i = Len(s) + 1 \/ At(s, i) = NL

HasNl(s, a, b) == \E k \in a..(b - 1) : s[k] = NL

(* last newline position in [a, b), 0 if there is none *)
LastNl(s, a, b) == LET p == ScanBack(b, a, LAMBDA k : s[k] # NL) IN IF p <= a THEN 0 ELSE p - 1

(* the end of the whitespace run [a, e) as far as a line ends there, 0 if no line ends in it *)
LastEol(s, a, e) == IF e = Len(s) + 1 THEN e ELSE LastNl(s, a, e)

PM == T("<<")   PMC == T("<</")  PME == T(">>")
P_LINK == T("[[")  P_LINKE == T("]]")
P_IMG == T("{{")   P_IMGE == T("}}")
P_PRE == T("{{{")  P_PREE == T("}}}")
P_HR == T("----")
P_BR == T("\\\\")
P_TILDEPRE == T("~}}}")

---------------------------------------------------------------- (* macros *)
(* the first closing tag  <</ name >>  at or behind q:  0 or its position *)
CloseTagEnd(s, q, name) ==      \* position behind the closing tag that starts at q, or 0
  IF ~StartsAt(s, q, PMC) THEN 0
  ELSE LET a == WsEnd(s, q + 3) IN
       IF ~StartsAt(s, a, name) THEN 0
       ELSE LET b == WsEnd(s, a + Len(name)) IN
            IF StartsAt(s, b, PME) THEN b + 2 ELSE 0

FindClose(s, q, name) ==
  LET p == Scan(s, q, LAMBDA k : s[k] = 60 /\ CloseTagEnd(s, k, name) # 0) IN IF p > Len(s) THEN 0 ELSE p

(* try the name s[n..m), then the shorter ones *)
RECURSIVE MacroNamed(_, _, _, _)
MacroNamed(s, i, n, m) ==
  IF m <= n THEN No
  ELSE LET a == WsEnd(s, m)
           p == Find(s, PME, a)
           args == Strip(Slice(s, a, p))
       IN IF p = 0 THEN No
          ELSE IF HasNl(args, 1, Len(args) + 1) THEN MacroNamed(s, i, n, m - 1)
          ELSE LET name == Slice(s, n, m)
                   q == FindClose(s, p + 2, name)
               IN IF q = 0 THEN MacroNamed(s, i, n, m - 1)
                  ELSE [ok |-> TRUE, to |-> CloseTagEnd(s, q, name), name |-> name,
                        args |-> args, text |-> Strip(Slice(s, p + 2, q))]

MacroPairAt(s, i) ==
  IF ~StartsAt(s, i, PM) THEN No
  ELSE IF Find(s, PMC, i + 2) = 0 THEN No
  ELSE LET n == WsEnd(s, i + 2)
       IN MacroNamed(s, i, n, WordEnd(s, n))

(* a single tag:  <<name args />> *)
SlashStart(s, lo, i) == ScanBack(i, lo, LAMBDA k : s[k] = 47)
WsStartLo(s, lo, i) == ScanBack(i, lo, LAMBDA k : IsWs(s[k]))

MacroTagAt(s, i) ==
  IF ~StartsAt(s, i, PM) THEN No
  ELSE LET n == i + 2
           m == WordEnd(s, n)
           p == Find(s, PME, m)
       IN IF m = n \/ p = 0 THEN No
          ELSE LET a == WsStartLo(s, m, SlashStart(s, m, p)) IN
               IF HasNl(s, m, a) THEN No
               ELSE [ok |-> TRUE, to |-> p + 2, name |-> Slice(s, n, m),
                     args |-> Strip(Slice(s, m, a))]

------------------------------------------------------- (* links and images *)
(* the shortest text [u, e), at least one character, no newline, before  ws* close *)
LabelEnd(s, i, close) ==        \* the first end of a label at or behind i
  LET e == Scan(s, i, LAMBDA k : s[k] = NL \/ ((s[k] = close[1] \/ IsWs(s[k])) /\ StartsAt(s, WsEnd(s, k), close)))
  IN IF StartsAt(s, WsEnd(s, e), close) THEN e ELSE 0

RECURSIVE LabelAt(_, _, _, _)   \* u: where the label starts, r: behind the |
LabelAt(s, r, u, close) ==
  LET e == IF u > Len(s) \/ s[u] = NL THEN 0 ELSE LabelEnd(s, u + 1, close) IN
  IF e # 0 THEN [ok |-> TRUE, to |-> WsEnd(s, e) + 2, label |-> Strip(Slice(s, u, e))]
  ELSE IF u > r THEN LabelAt(s, r, u - 1, close)
  ELSE No

TargetAt(s, a, i, close) ==     \* a: start of the target, i: its first possible end
  LET Label(k) == LET r == WsEnd(s, k) IN
        IF At(s, r) = 124 THEN LabelAt(s, r + 1, WsEnd(s, r + 1), close) ELSE No
      Closes(k) == (s[k] = close[1] \/ IsWs(s[k])) /\ StartsAt(s, WsEnd(s, k), close)
      t == Scan(s, i, LAMBDA k : s[k] = NL \/ Closes(k) \/ ((s[k] = 124 \/ IsWs(s[k])) /\ Label(k).ok))
      lab == IF t > Len(s) THEN No ELSE Label(t)
  IN IF lab.ok THEN [ok |-> TRUE, to |-> lab.to, target |-> Slice(s, a, t), label |-> lab.label]
     ELSE IF t <= Len(s) /\ Closes(t)
          THEN [ok |-> TRUE, to |-> WsEnd(s, t) + 2, target |-> Slice(s, a, t), label |-> << >>]
     ELSE No

BracketAt(s, i, open, close) ==
  IF ~StartsAt(s, i, open) \/ i + 2 > Len(s) \/ s[i + 2] = NL \/ Find(s, close, i + 3) = 0 THEN No
  ELSE TargetAt(s, i + 2, i + 3, close)

LinkAt(s, i)  == BracketAt(s, i, P_LINK, P_LINKE)
ImageAt(s, i) == BracketAt(s, i, P_IMG, P_IMGE)

(* free standing urls *)
Protocols == << T("http"), T("https"), T("ftp"), T("nntp"), T("news"),
                T("mailto"), T("telnet"), T("file"), T("irc") >>
ColSl == T("://")

UrlEnd(s, i) == Scan(s, i, LAMBDA k : s[k] = 36 \/ IsWs(s[k]))

ProtoAt(s, i) ==        \* length of the protocol at i, 0 if there is none
  LET fits == {k \in 1..Len(Protocols) : StartsAt(s, i, Protocols[k])
                                         /\ StartsAt(s, i + Len(Protocols[k]), ColSl)} IN
  IF fits = {} THEN 0 ELSE Len(Protocols[CHOOSE k \in fits : TRUE])

UrlAt(s, i) ==
  IF ~(i = 1 \/ IsWs(At(s, i - 1))) THEN No
  ELSE LET esc == At(s, i) = 126
           a == IF esc THEN i + 1 ELSE i
           p == ProtoAt(s, a)
           e == UrlEnd(s, a + p + 3)
       IN IF p = 0 \/ e = a + p + 3 THEN No
          ELSE [ok |-> TRUE, to |-> e, escaped |-> esc, target |-> Slice(s, a, e)]

---------------------------------------------------------- (* inline markup *)
PreInlineAt(s, i) ==
  IF ~StartsAt(s, i, P_PRE) THEN No
  ELSE LET q == FindOnLine(s, P_PREE, i + 3) IN
       IF q = 0 THEN No ELSE [ok |-> TRUE, to |-> q + 3, text |-> Slice(s, i + 3, q)]

(* typefaces: the doubled character, and the html element *)
Marks == << [c |-> 42, tag |-> T("strong")], [c |-> 47, tag |-> T("i")],
            [c |-> 35, tag |-> T("tt")],     [c |-> 95, tag |-> T("u")],
            [c |-> 94, tag |-> T("sup")],    [c |-> 44, tag |-> T("sub")],
            [c |-> 45, tag |-> T("small")],  [c |-> 126, tag |-> T("del")] >>
MarkChars == {Marks[k].c : k \in 1..Len(Marks)}
MarkOf(c) == Marks[CHOOSE k \in 1..Len(Marks) : Marks[k].c = c].tag

(* "//" directly behind a ":" is never an emphasis: it belongs to an url *)
NotUrlSlashes(s, c, i) == c # 47 \/ At(s, i - 1) # 58

MarkClose(s, c, i) ==
  LET q == Scan(s, i, LAMBDA k : s[k] = NL \/ (s[k] = c /\ At(s, k + 1) = c /\ NotUrlSlashes(s, c, k)))
  IN IF q > Len(s) \/ s[q] = NL THEN 0 ELSE q

MarkAt(s, i) ==
  LET c == At(s, i) IN
  IF ~(c \in MarkChars) \/ At(s, i + 1) # c \/ ~NotUrlSlashes(s, c, i) \/ At(s, i + 2) \in {-1, NL} THEN No
  ELSE LET q == MarkClose(s, c, i + 3) IN
       IF q = 0 THEN No
       ELSE [ok |-> TRUE, to |-> q + 2, tag |-> MarkOf(c), text |-> Slice(s, i + 2, q)]

----------------------------------------------------------- (* block markup *)
(* nonempty: an empty match is not allowed (one was already made here) *)
LineAt(s, i, nonempty) ==
  IF ~Bol(s, i) THEN No
  ELSE LET e == WsEnd(s, i)
           to == IF e = Len(s) + 1 THEN e ELSE LastNl(s, i, e)
       IN IF to = 0 \/ (nonempty /\ to = i) THEN No ELSE [ok |-> TRUE, to |-> to]

HeadAt(s, i) ==
  IF ~Bol(s, i) \/ At(s, i) # 61 THEN No
  ELSE LET k == CharEnd(s, 61, i)
           t == WsEnd(s, k)
           e == LineEnd(s, t)
           line == Slice(s, t, e)
           x == ScanBack(Len(line) + 1, 1, LAMBDA n : line[n] = 61 \/ IsWs(line[n]))
       IN [ok |-> TRUE, to |-> e, level |-> k - i, text |-> Strip(SubSeq(line, 1, x - 1))]

SeparatorAt(s, i) ==
  IF ~Bol(s, i) THEN No
  ELSE LET a == WsEnd(s, i) IN
       IF ~StartsAt(s, a, P_HR) THEN No
       ELSE LET b == SetEnd(s, {SP, TAB}, a + 4) IN
            IF Eol(s, b) THEN [ok |-> TRUE, to |-> b] ELSE No

FindPreEnd(s, i) ==
  LET p == Scan(s, i, LAMBDA k : s[k] = 125 /\ Bol(s, k) /\ StartsAt(s, k, P_PREE)) IN IF p > Len(s) THEN 0 ELSE p

(* remove the ~ that keeps a line "}}}" from ending the block *)
Untilde(s) ==
  IF ~HasText(s, P_TILDEPRE) THEN s
  ELSE LET Line(acc, i) ==            \* i: beginning of a line
             LET a == WsEnd(s, i)
                 j == IF StartsAt(s, a, P_TILDEPRE) THEN LastEol(s, a + 4, WsEnd(s, a + 4)) ELSE 0
                 nl == FindChar(s, NL, i)
             IN IF j # 0 THEN [to |-> j + 1, out |-> acc.out \o Slice(s, i, a) \o Slice(s, a + 1, j)
                                                     \o (IF j = Len(s) + 1 THEN << >> ELSE << NL >>)]
                ELSE IF nl = 0 THEN [to |-> Len(s) + 1, out |-> acc.out \o SubSeq(s, i, Len(s))]
                ELSE [to |-> nl + 1, out |-> acc.out \o SubSeq(s, i, nl)]
           w == Walk(1, Len(s), [to |-> 1, out |-> << >>], Line)
       IN w.out

PreBlockAt(s, i) ==
  IF ~Bol(s, i) \/ ~StartsAt(s, i, P_PRE) THEN No
  ELSE LET j == LastNl(s, i + 3, WsEnd(s, i + 3)) IN
       IF j = 0 THEN No
       ELSE LET q == FindPreEnd(s, j + 1) IN
            IF q = 0 THEN No
            ELSE [ok |-> TRUE, to |-> q + 3, text |-> Untilde(Slice(s, j, q))]

(* ---- lists ---- *)
BULLETS == {35, 42}

ListMore(s, e) ==               \* further item lines, from the newline at e
  Scan(s, e, LAMBDA k : s[k] = NL /\ ~(At(s, SetEnd(s, {SP, TAB}, k + 1)) \in BULLETS))

ListAt(s, i) ==
  IF ~Bol(s, i) THEN No
  ELSE LET a == WsEnd(s, i) IN
       IF ~(At(s, a) \in BULLETS) \/ a + 1 > Len(s) \/ s[a + 1] \in BULLETS THEN No
       ELSE LET e == ListMore(s, LineEnd(s, a + 2))
            IN [ok |-> TRUE, to |-> e, text |-> Slice(s, i, e)]

(* the items of the text of a list *)
ItemAt(s, acc, i) ==
  LET a == WsEnd(s, i)
      b == SetEnd(s, BULLETS, a)
      t == WsEnd(s, b)
      le == LineEnd(s, t)
      x == Max2(t, WsStart(s, le))      \* end of the text without trailing whitespace
      y == WsEnd(s, x)
      to == LastEol(s, x, y)
  IN IF Bol(s, i) /\ b > a
     THEN [to |-> to, items |-> Append(acc.items, [bullet |-> Slice(s, a, b), text |-> Slice(s, t, x)])]
     ELSE [acc EXCEPT !.to = i + 1]
ListItems(s) ==
  LET w == Walk(1, Len(s), [to |-> 1, items |-> << >>], LAMBDA acc, i : ItemAt(s, acc, i)) IN w.items

(* ---- tables ---- *)
(* the first possible end of a row, from e on: behind a | that ends a line, or the end of a line *)
RowEnd(s, e) ==
  LET RowBar(k) == LET r == WsEnd(s, k) IN At(s, r) = 124 /\ LastEol(s, r + 1, WsEnd(s, r + 1)) # 0
      p == Scan(s, e, LAMBDA k : (s[k] = 124 \/ IsWs(s[k])) /\ (RowBar(k) \/ LastEol(s, k, WsEnd(s, k)) # 0))
      r == WsEnd(s, p)
  IN IF p > Len(s) THEN [row |-> p, to |-> p]
     ELSE IF RowBar(p) THEN [row |-> r + 1, to |-> LastEol(s, r + 1, WsEnd(s, r + 1))]
     ELSE IF r = Len(s) + 1 THEN [row |-> r, to |-> r]
     ELSE [row |-> LastNl(s, p, r), to |-> LastNl(s, p, r)]

TableAt(s, i) ==
  IF ~Bol(s, i) THEN No
  ELSE LET a == WsEnd(s, i) IN
       IF At(s, a) # 124 THEN No
       ELSE LET r == RowEnd(s, a + 1)
            IN [ok |-> TRUE, to |-> r.to, row |-> Strip(Slice(s, a, r.row))]

(* markup that may contain a | inside of a cell *)
CellMarkup(s, i) ==
  LET c == s[i] IN
  IF c = 91 THEN LinkAt(s, i)
  ELSE IF c = 60 THEN LET m == MacroPairAt(s, i) IN IF m.ok THEN m ELSE MacroTagAt(s, i)
  ELSE IF c = 123 THEN LET m == ImageAt(s, i) IN IF m.ok THEN m ELSE PreInlineAt(s, i)
  ELSE No

CellEnd(s, i) ==        \* the next | that is in no markup
  LET w == Walk(i, Len(s), [to |-> i, done |-> FALSE],
                LAMBDA acc, k :
                  IF acc.done THEN acc
                  ELSE LET p == FirstOfSet(s, {124, 91, 60, 123}, k)
                           m == IF p > Len(s) THEN No ELSE CellMarkup(s, p)
                       IN IF p > Len(s) THEN [to |-> p, done |-> TRUE]
                          ELSE IF m.ok THEN [to |-> m.to, done |-> FALSE]
                          ELSE IF s[p] = 124 THEN [to |-> p, done |-> TRUE]
                          ELSE [to |-> p + 1, done |-> FALSE])
  IN w.to

CellAt(s, acc, p) ==    \* p: a |
  LET t == WsEnd(s, p + 1)
      head == At(s, t) = 61 /\ t + 1 <= Len(s) /\ s[t + 1] # 124
      e == IF head THEN CellEnd(s, t + 1) ELSE CellEnd(s, t)
      Cell(h, text, to) == [to |-> to, cells |-> Append(acc.cells, [head |-> h, text |-> text])]
  IN IF p = Len(s) THEN [acc EXCEPT !.to = p + 1]         \* it only closes the row
     ELSE IF head THEN Cell(TRUE, StripSet(Slice(s, t, e), {61, SP}), e)
     ELSE Cell(FALSE, Strip(Slice(s, t, e)), e)
RowCells(row) ==
  LET w == Walk(1, Len(row), [to |-> 1, cells |-> << >>],
                LAMBDA acc, i : IF row[i] = 124 THEN CellAt(row, acc, i) ELSE [acc EXCEPT !.to = i + 1])
  IN w.cells

(* ---- plain lines ---- *)
(* brk: the line break behind the line counts;  sep: the line continues the one before *)
TextAt(s, i, blog) ==
  IF i > Len(s) \/ s[i] = NL THEN No
  ELSE LET e == LineEnd(s, i)
           w == WsEnd(s, e + 1)
           forced == e - i >= 0 /\ At(s, e - 1) = 92 /\ At(s, e - 2) = 92
           brk == blog /\ e <= Len(s) /\ ~forced /\ w <= Len(s) /\ ~HasNl(s, e + 1, w)
           sep == ~blog /\ At(s, i - 1) = NL /\ ~(At(s, i - 2) = 92 /\ At(s, i - 3) = 92)
       IN [ok |-> TRUE, to |-> IF brk THEN e + 1 ELSE e, text |-> Slice(s, i, e), brk |-> brk, sep |-> sep]
=============================================================================
