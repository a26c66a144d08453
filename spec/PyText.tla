------------------------------- MODULE PyText -------------------------------
(***************************************************************************)
(* Notations for values that users write inside macro tags: numbers, shell *)
(* style quoting, key=value lists, and JSON strings for error messages and *)
(* for dict -> string.                                                     *)
(***************************************************************************)
EXTENDS Text

--------------------------------------------------------------- (* integers *)
DigitsOk(s) ==    \* digits, single underscores only between digits
  \A i \in 1..Len(s) : \/ IsDigit(s[i])
                      \/ (s[i] = 95 /\ i > 1 /\ i < Len(s) /\ IsDigit(s[i - 1]) /\ IsDigit(s[i + 1]))

DropZeros(s) == IF s = << >> THEN s ELSE SubSeq(s, Min2(Len(s), CharEnd(s, 48, 1)), Len(s))

(* the canonical decimal text of an integer literal, << >> if it is none *)
ParseInt(str) ==
  LET s == Strip(str)
      signed == Len(s) > 0 /\ s[1] \in {43, 45}
      d == IF signed THEN Tail(s) ELSE s
      digits == DropZeros(SelectSeq(d, LAMBDA c : c # 95))
  IN IF Len(d) = 0 \/ ~IsDigit(d[1]) \/ ~DigitsOk(d) THEN << >>
     ELSE IF signed /\ s[1] = 45 /\ digits # << 48 >> THEN << 45 >> \o digits
     ELSE digits

(* the number a canonical text stands for (only for small numbers) *)
RECURSIVE NatOf(_, _, _)
NatOf(s, i, acc) == IF i > Len(s) THEN acc ELSE NatOf(s, i + 1, acc * 10 + (s[i] - 48))
IntOf(s) == IF s[1] = 45 THEN 0 - NatOf(s, 2, 0) ELSE NatOf(s, 1, 0)

------------------------------------------------------ (* shell style split *)
ShWs(c) == c \in {32, 9, 13, 10}
ShQuote(c) == c \in {34, 39}

(* st: "sp" between tokens, "a" in a token, "q" in quotes q, "e" behind a backslash, where
   back is the state before it;  quoted: the token has quotes, it may be empty *)
ShEmit(m) == IF m.tok # << >> \/ m.quoted THEN Append(m.out, m.tok) ELSE m.out
ShStep(m, c) ==
  CASE m.st = "sp" ->
         IF ShWs(c) THEN m
         ELSE IF c = 92 THEN [m EXCEPT !.st = "e", !.back = "a"]
         ELSE IF ShQuote(c) THEN [m EXCEPT !.st = "q", !.q = c, !.quoted = TRUE]
         ELSE [m EXCEPT !.st = "a", !.tok = << c >>]
    [] m.st = "a" ->
         IF ShWs(c) THEN [m EXCEPT !.st = "sp", !.tok = << >>, !.quoted = FALSE, !.out = ShEmit(m)]
         ELSE IF c = 92 THEN [m EXCEPT !.st = "e", !.back = "a"]
         ELSE IF ShQuote(c) THEN [m EXCEPT !.st = "q", !.q = c, !.quoted = TRUE]
         ELSE [m EXCEPT !.tok = Append(@, c)]
    [] m.st = "q" ->
         IF c = m.q THEN [m EXCEPT !.st = "a"]
         ELSE IF c = 92 /\ m.q = 34 THEN [m EXCEPT !.st = "e", !.back = "q"]
         ELSE [m EXCEPT !.tok = Append(@, c)]
    [] OTHER ->
         LET keep == m.back = "q" /\ c # 92 /\ c # m.q
         IN [m EXCEPT !.st = m.back, !.tok = IF keep THEN @ \o << 92, c >> ELSE Append(@, c)]

ShSplit(s) ==
  LET m == FoldLeft(ShStep, [st |-> "sp", q |-> 0, back |-> "a", tok |-> << >>, quoted |-> FALSE, out |-> << >>], s)
  IN IF m.st \in {"q", "e"} THEN [ok |-> FALSE, parts |-> << >>] ELSE [ok |-> TRUE, parts |-> ShEmit(m)]

------------------------------------------------------ (* key=value strings *)
(* values: [t |-> "str", v], [t |-> "int", v (canonical text)], [t |-> "True"], ... *)
ArgValue(v) ==
  IF v = T("True") THEN [t |-> "bool", v |-> v]
  ELSE IF v = T("False") THEN [t |-> "bool", v |-> v]
  ELSE IF v = T("None") THEN [t |-> "none", v |-> v]
  ELSE LET n == ParseInt(StripSet(v, {34, 39})) IN
       IF n # << >> THEN [t |-> "int", v |-> n] ELSE [t |-> "str", v |-> v]

(* assign key in an ordered dict *)
Put(d, key, val) ==
  LET i == Scan(d, 1, LAMBDA k : d[k].k = key)
      new == [k |-> key, v |-> val]
  IN IF i > Len(d) THEN Append(d, new) ELSE [d EXCEPT ![i] = new]

PutPart(acc, part) ==       \* key=value
  LET e == FindChar(part, 61, 1) IN
  IF ~acc.ok \/ e = 0 THEN [ok |-> FALSE, d |-> << >>]
  ELSE [ok |-> TRUE, d |-> Put(acc.d, SubSeq(part, 1, e - 1), ArgValue(SubSeq(part, e + 1, Len(part))))]

StringToDict(s) ==
  LET sh == ShSplit(s) IN
  IF ~sh.ok THEN [ok |-> FALSE, d |-> << >>] ELSE FoldLeft(PutPart, [ok |-> TRUE, d |-> << >>], sh.parts)

Lookup(d, key) ==       \* index of a key, 0 if missing
  LET idx == {i \in 1..Len(d) : d[i].k = key} IN
  IF idx = {} THEN 0 ELSE CHOOSE i \in idx : TRUE

--------------------------------------------------------- (* JSON, sorting *)
HexDigit(n) == IF n < 10 THEN 48 + n ELSE 87 + n
Hex4(c) == << 92, 117, HexDigit(c \div 4096), HexDigit((c \div 256) % 16),
              HexDigit((c \div 16) % 16), HexDigit(c % 16) >>
JsonC(c) ==
  IF c = 34 THEN << 92, 34 >> ELSE IF c = 92 THEN << 92, 92 >>
  ELSE IF c = 10 THEN T("\\n") ELSE IF c = 13 THEN T("\\r") ELSE IF c = 9 THEN T("\\t")
  ELSE IF c = 8 THEN T("\\b") ELSE IF c = 12 THEN T("\\f")
  ELSE IF c >= 32 /\ c <= 126 THEN << c >>
  ELSE IF c < 65536 THEN Hex4(c)
  ELSE LET v == c - 65536 IN Hex4(55296 + (v \div 1024)) \o Hex4(56320 + (v % 1024))
JsonStr(s) == << 34 >> \o MapText(JsonC, s) \o << 34 >>

JsonVal(v) ==
  CASE v.t = "str"  -> JsonStr(v.v)
    [] v.t = "int"  -> v.v
    [] v.t = "none" -> T("null")
    [] v.t = "bool" -> IF v.v = T("True") THEN T("true") ELSE T("false")

SortByKey(d) == SortSeq(d, LAMBDA a, b : TextLess(a.k, b.k))

(* the inverse notation: sorted, space separated *)
DictToString(d) ==
  LET s == SortByKey(d)
  IN Join([i \in 1..Len(s) |-> s[i].k \o << 61 >> \o JsonVal(s[i].v)], << SP >>)
=============================================================================
