------------------------------- MODULE Codec -------------------------------
(* Bytes as text and text as bytes: the codecs of the command line tools. *)
EXTENDS Text

BOM == 65279
NoCodec == "?"
(* the names of a codec *)
CodecOf(name) ==
  IF name \in {"utf-8", "utf8", "UTF-8", "U8"} THEN "utf-8"
  ELSE IF name \in {"utf-8-sig"} THEN "utf-8-sig"
  ELSE IF name \in {"ascii", "us-ascii"} THEN "ascii"
  ELSE IF name \in {"latin-1", "iso-8859-1", "latin1"} THEN "latin-1"
  ELSE IF name \in {"utf-16-le"} THEN "utf-16-le"
  ELSE NoCodec

Bad == [ok |-> FALSE, v |-> << >>]
Good(v) == [ok |-> TRUE, v |-> v]

------------------------------------------------------------------ (* utf-8 *)
IsCont(b) == b >= 128 /\ b <= 191
Lead(b) ==      \* how many bytes follow, the bits of the lead byte, the smallest code point
  IF b < 128 THEN << 0, b, 0 >>
  ELSE IF b >= 192 /\ b <= 223 THEN << 1, b - 192, 128 >>
  ELSE IF b >= 224 /\ b <= 239 THEN << 2, b - 224, 2048 >>
  ELSE IF b >= 240 /\ b <= 247 THEN << 3, b - 240, 65536 >>
  ELSE << -1, 0, 0 >>
IsScalar(c) == c >= 0 /\ c <= 1114111 /\ ~(c >= 55296 /\ c <= 57343)

Utf8Step(s, acc, i) ==
  LET l == Lead(s[i])
      n == l[1]
      whole == n >= 0 /\ i + n <= Len(s) /\ \A k \in 1..n : IsCont(s[i + k])
      c == FoldLeft(LAMBDA v, b : v * 64 + (b - 128), l[2], SubSeq(s, i + 1, i + n))
  IN IF whole /\ IsScalar(c) /\ c >= l[3] THEN [to |-> i + n + 1, ok |-> TRUE, out |-> Append(acc.out, c)]
     ELSE [to |-> Len(s) + 1, ok |-> FALSE, out |-> << >>]
Utf8Decode(s) ==
  LET w == Walk(1, Len(s), [to |-> 1, ok |-> TRUE, out |-> << >>], LAMBDA acc, i : Utf8Step(s, acc, i))
  IN IF w.ok THEN Good(w.out) ELSE Bad

Utf8Of(c) ==
  IF c < 128 THEN << c >>
  ELSE IF c < 2048 THEN << 192 + (c \div 64), 128 + (c % 64) >>
  ELSE IF c < 65536 THEN << 224 + (c \div 4096), 128 + ((c \div 64) % 64), 128 + (c % 64) >>
  ELSE << 240 + (c \div 262144), 128 + ((c \div 4096) % 64), 128 + ((c \div 64) % 64), 128 + (c % 64) >>
EachByte(s, f(_)) == FlattenSeq([i \in 1..Len(s) |-> f(s[i])])
All(s, p(_)) == \A i \in 1..Len(s) : p(s[i])
Utf8Encode(s) == IF All(s, IsScalar) THEN Good(EachByte(s, Utf8Of)) ELSE Bad

----------------------------------------------------------------- (* utf-16 *)
Utf16Step(s, acc, i) ==
  LET Unit(k) == s[k] + 256 * s[k + 1]
      u == Unit(i)
      v == Unit(i + 2)
      fail == [to |-> Len(s) + 1, ok |-> FALSE, out |-> << >>]
  IN IF i + 1 > Len(s) THEN fail
     ELSE IF u < 55296 \/ u > 57343 THEN [to |-> i + 2, ok |-> TRUE, out |-> Append(acc.out, u)]
     ELSE IF u > 56319 \/ i + 3 > Len(s) THEN fail
     ELSE IF v >= 56320 /\ v <= 57343
          THEN [to |-> i + 4, ok |-> TRUE, out |-> Append(acc.out, 65536 + 1024 * (u - 55296) + (v - 56320))]
     ELSE fail
Utf16Decode(s) ==
  LET w == Walk(1, Len(s), [to |-> 1, ok |-> TRUE, out |-> << >>], LAMBDA acc, i : Utf16Step(s, acc, i))
  IN IF w.ok THEN Good(w.out) ELSE Bad
Unit16(u) == << u % 256, u \div 256 >>
Utf16Of(c) ==
  IF c < 65536 THEN Unit16(c)
  ELSE LET d == c - 65536 IN Unit16(55296 + (d \div 1024)) \o Unit16(56320 + (d % 1024))
Utf16Encode(s) == IF All(s, IsScalar) THEN Good(EachByte(s, Utf16Of)) ELSE Bad

------------------------------------------------------------------ (* both *)
Decode(codec, bytes) ==
  CASE codec = "utf-8"     -> Utf8Decode(bytes)
    [] codec = "utf-8-sig" -> LET d == Utf8Decode(bytes) IN
                              IF d.ok /\ d.v # << >> /\ d.v[1] = BOM THEN Good(Tail(d.v)) ELSE d
    [] codec = "ascii"     -> IF All(bytes, LAMBDA b : b < 128) THEN Good(bytes) ELSE Bad
    [] codec = "latin-1"   -> Good(bytes)
    [] codec = "utf-16-le" -> Utf16Decode(bytes)
    [] OTHER               -> Bad

Encode(codec, text) ==
  CASE codec = "utf-8"     -> Utf8Encode(text)
    [] codec = "utf-8-sig" -> LET e == Utf8Encode(text) IN IF e.ok THEN Good(Utf8Of(BOM) \o e.v) ELSE e
    [] codec = "ascii"     -> IF All(text, LAMBDA c : c < 128) THEN Good(text) ELSE Bad
    [] codec = "latin-1"   -> IF All(text, LAMBDA c : c < 256) THEN Good(text) ELSE Bad
    [] codec = "utf-16-le" -> Utf16Encode(text)
    [] OTHER               -> Bad
=============================================================================
