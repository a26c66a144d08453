-------------------------------- MODULE Text --------------------------------
(***************************************************************************)
(* Text as sequences of Unicode code points, and the string primitives     *)
(* the other modules are built from.  TLA+ strings are opaque (and TLC     *)
(* cannot print or index non-ASCII ones), so every document, every output  *)
(* and every literal is a sequence of integers; T("<p>") turns an ASCII    *)
(* literal of this specification into such a sequence.                     *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, SequencesExt, FiniteSetsExt

ASCII == " !\"#$%&'()*+,-./0123456789:;<=>?@ABCDEFGHIJKLMNOPQRSTUVWXYZ[\\]^_`abcdefghijklmnopqrstuvwxyz{|}~"

Ord == [c \in {SubSeq(ASCII, i, i) : i \in 1..Len(ASCII)} \cup {"\n", "\t"} |->
          IF c = "\n" THEN 10 ELSE IF c = "\t" THEN 9
          ELSE 31 + (CHOOSE i \in 1..Len(ASCII) : SubSeq(ASCII, i, i) = c)]

T(str) == [i \in 1..Len(str) |-> Ord[SubSeq(str, i, i)]]

NL  == 10
TAB == 9
SP  == 32
EmptyText == << >>

(* the same sequence; TLC has computed its elements *)
Eager(s) == SubSeq(s, 1, Len(s))

(* the character at position i, -1 outside of the text *)
At(s, i) == IF i >= 1 /\ i <= Len(s) THEN s[i] ELSE -1

(* whitespace: what Unicode (and Python's \s, str.strip, str.split) calls whitespace *)
IsWs(c) ==
  IF c > 32 /\ c < 133 THEN FALSE
  ELSE \/ c = 32 \/ (c >= 9 /\ c <= 13) \/ (c >= 28 /\ c <= 31)
       \/ c = 133 \/ c = 160 \/ c = 5760 \/ (c >= 8192 /\ c <= 8202)
       \/ c = 8232 \/ c = 8233 \/ c = 8239 \/ c = 8287 \/ c = 12288

IsDigit(c) == c >= 48 /\ c <= 57
IsUpper(c) == c >= 65 /\ c <= 90
IsLower(c) == c >= 97 /\ c <= 122
IsAlpha(c) == IsUpper(c) \/ IsLower(c)
IsAlnum(c) == IsAlpha(c) \/ IsDigit(c)

(* word characters; the generators only use non-ASCII characters this classifies like Unicode *)
IsWord(c) ==
  \/ IsAlnum(c) \/ c = 95
  \/ /\ c > 127
     /\ \/ c = 170 \/ c = 181 \/ c = 186
        \/ (c >= 192 /\ c <= 705 /\ c # 215 /\ c # 247)
        \/ (c >= 913 /\ c <= 929) \/ (c >= 931 /\ c <= 1013)
        \/ (c >= 1024 /\ c <= 1153)
        \/ (c >= 19968 /\ c <= 40956)

LowerC(c) == IF IsUpper(c) THEN c + 32 ELSE c
Lower(s) == [i \in 1..Len(s) |-> LowerC(s[i])]

StartsAt(s, i, p) ==
  /\ i >= 1
  /\ i + Len(p) - 1 <= Len(s)
  /\ \A k \in 1..Len(p) : s[i + k - 1] = p[k]

StartsWith(s, p) == StartsAt(s, 1, p)
EndsWith(s, p) == StartsAt(s, Len(s) - Len(p) + 1, p)

(* Loops.  They are folds and not recursive operators because TLC looks names up
   dynamically, which makes deep recursion quadratic.

   Walk: from position a on; Step(acc, i) reads something at i and puts the position
   behind it into acc.to, which is where the next step is made; ends behind position b *)
Walk(a, b, init, Step(_, _)) ==
  FoldLeft(LAMBDA acc, i : IF i < acc.to THEN acc ELSE Step(acc, i), init, [k \in 1..(b - a + 1) |-> a + k - 1])

(* the lowest start of a run before i, not before lo, in which Test holds everywhere *)
ScanBack(i, lo, Test(_)) ==
  IF i <= lo \/ ~Test(i - 1) THEN i
  ELSE i - (CHOOSE d \in 1..(i - lo) : (d = i - lo \/ ~Test(i - d - 1)) /\ \A e \in 1..d : Test(i - e))

(* the first position k >= i with Test(k), or the position behind the text *)
Scan(s, i, Test(_)) ==
  IF i > Len(s) THEN i
  ELSE CHOOSE k \in i..(Len(s) + 1) : (k > Len(s) \/ Test(k)) /\ \A j \in i..(k - 1) : ~Test(j)

(* first position >= i where p occurs, 0 if there is none *)
FindChar(s, c, i) ==
  LET p == Scan(s, i, LAMBDA k : s[k] = c) IN IF p > Len(s) THEN 0 ELSE p

Find(s, p, i) ==
  LET q == Scan(s, i, LAMBDA k : s[k] = p[1] /\ StartsAt(s, k, p)) IN IF q > Len(s) THEN 0 ELSE q

HasText(s, p) == Find(s, p, 1) # 0

(* the same, but only on the line of position i *)
FindOnLine(s, p, i) ==
  LET q == Scan(s, i, LAMBDA k : s[k] = NL \/ (s[k] = p[1] /\ StartsAt(s, k, p)))
  IN IF q > Len(s) THEN 0 ELSE IF StartsAt(s, q, p) THEN q ELSE 0

FirstOfSet(s, cs, i) == Scan(s, i, LAMBDA k : s[k] \in cs)     \* or behind the text

WsEnd(s, i) == IF i > Len(s) \/ ~IsWs(s[i]) THEN i ELSE Scan(s, i, LAMBDA k : ~IsWs(s[k]))

WsStart(s, i) == ScanBack(i, 1, LAMBDA k : IsWs(s[k]))   \* start of the whitespace that ends before position i

CharEnd(s, c, i) == IF At(s, i) # c THEN i ELSE Scan(s, i, LAMBDA k : s[k] # c)      \* end of a run of the character c

WordEnd(s, i) == Scan(s, i, LAMBDA k : ~IsWord(s[k]))

LineEnd(s, i) == Scan(s, i, LAMBDA k : s[k] = NL)     \* position of the next newline, or behind the text

Slice(s, a, b) == SubSeq(s, a, b - 1)         \* half open, like s[a:b]

Strip(s) == LET a == WsEnd(s, 1) IN
            IF a > Len(s) THEN EmptyText ELSE SubSeq(s, a, WsStart(s, Len(s) + 1) - 1)
RStrip(s) == SubSeq(s, 1, WsStart(s, Len(s) + 1) - 1)

SetEnd(s, cs, i) == Scan(s, i, LAMBDA k : ~(s[k] \in cs))
SetStart(s, cs, i) == ScanBack(i, 1, LAMBDA k : s[k] \in cs)
StripSet(s, cs) == LET a == SetEnd(s, cs, 1) IN
                   IF a > Len(s) THEN EmptyText ELSE SubSeq(s, a, SetStart(s, cs, Len(s) + 1) - 1)

Repeat(t, n) == IF n <= 0 THEN EmptyText ELSE FlattenSeq([i \in 1..n |-> t])
Spaces(n) == [i \in 1..n |-> SP]
LJust(s, n) == IF Len(s) >= n THEN s ELSE s \o Spaces(n - Len(s))

(* the positions at which Test holds *)
Positions(s, Test(_)) == SelectSeq([i \in 1..Len(s) |-> i], Test)

SplitChar(s, c) ==
  LET p == << 0 >> \o Positions(s, LAMBDA i : s[i] = c) \o << Len(s) + 1 >>
  IN Eager([k \in 1..(Len(p) - 1) |-> SubSeq(s, p[k] + 1, p[k + 1] - 1)])

Concat(parts) == FlattenSeq(parts)
Join(parts, sep) ==
  FlattenSeq([i \in 1..(2 * Len(parts) - 1) |-> IF i % 2 = 1 THEN parts[(i + 1) \div 2] ELSE sep])

Subst(s, p, r) ==
  IF ~HasText(s, p) THEN s
  ELSE LET w == Walk(1, Len(s), [to |-> 1, out |-> << >>],
                  LAMBDA acc, i : LET j == Find(s, p, i) IN
                    IF j = 0 THEN [to |-> Len(s) + 1, out |-> acc.out \o SubSeq(s, i, Len(s))]
                    ELSE [to |-> j + Len(p), out |-> acc.out \o SubSeq(s, i, j - 1) \o r])
       IN w.out

SubstFirst(s, p, r) ==
  LET j == Find(s, p, 1) IN
  IF j = 0 THEN s ELSE SubSeq(s, 1, j - 1) \o r \o SubSeq(s, j + Len(p), Len(s))

MapText(f(_), s) == FlattenSeq([i \in 1..Len(s) |-> f(s[i])])

(* decimal representation of a natural number *)
RECURSIVE NatText(_)
NatText(n) == IF n < 10 THEN << 48 + n >> ELSE Append(NatText(n \div 10), 48 + (n % 10))

(* markup escaping of text and of attribute values *)
AMP == T("&amp;")
LT  == T("&lt;")
GT  == T("&gt;")
QUOT == T("&quot;")
EscC(c) == IF c = 38 THEN AMP ELSE IF c = 60 THEN LT ELSE IF c = 62 THEN GT ELSE << c >>
EscAttrC(c) == IF c = 34 THEN QUOT ELSE EscC(c)
NeedsEsc(s) == \E i \in 1..Len(s) : s[i] \in {34, 38, 60, 62}
Escape(s)     == IF NeedsEsc(s) THEN MapText(EscC, s) ELSE s
EscapeAttr(s) == IF NeedsEsc(s) THEN MapText(EscAttrC, s) ELSE s

(* lexicographic order of texts *)
TextLess(a, b) ==
  LET d == Scan(a, 1, LAMBDA k : k > Len(b) \/ a[k] # b[k]) IN
  IF d > Len(b) THEN FALSE ELSE IF d > Len(a) THEN TRUE ELSE a[d] < b[d]

Min2(a, b) == IF a < b THEN a ELSE b
Max2(a, b) == IF a > b THEN a ELSE b

(* text without whitespace: what "no text is lost" compares *)
NoWs(s) == SelectSeq(s, LAMBDA c : ~IsWs(c))
=============================================================================
