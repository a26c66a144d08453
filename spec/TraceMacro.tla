----------------------------- MODULE TraceMacro -----------------------------
(* Recorded calls of the example macros: [name, ext, in, pygments (works, is missing, or fails), codes, exc, out, noise] *)
EXTENDS Rest, Macros, Json, IOUtils

VARIABLE rec
Recs == ndJsonDeserialize(IOEnv.TRACE)
N == Len(Recs)
CHAINS == 64

Init == rec \in 1..Min2(CHAINS, N)
Next == rec + CHAINS <= N /\ rec' = rec + CHAINS

Want(r) ==
  CASE r.name = "html" -> r.in
    [] r.name = "pre" -> PreMacro(r.in)
    [] r.name = "code" /\ r.pygments = "works" -> CodeMacro(r.codes, r.ext, r.in)
    [] r.name = "code" /\ r.pygments = "missing" -> PreMacro(r.in)
    [] r.name = "code" /\ r.pygments = "fails" -> LineBreaks(PreMacro(r.in))

(* what a reader sees: the text without tags; a line ends with a tag and a line end *)
ShownText(html) ==
  LET toks == TokensOf(Subst(html, T("<br />\n"), << 10 >>))
  IN FlattenSeq([i \in 1..Len(toks) |-> toks[i].t])
Ends == {10, 13}
Essence(text) == StripSet([i \in 1..Len(text) |-> IF text[i] = 13 THEN 10 ELSE text[i]], Ends)

SameText(html, text) == Essence(ShownText(html)) = Essence(Subst(text, << 13, 10 >>, << 10 >>))

Judge(r) ==
  IF r.exc # "" THEN "exception"
  ELSE IF r.noise THEN "noise"
  ELSE IF r.out # Want(r) THEN "output"
  ELSE IF r.name = "html" THEN "ok"
  ELSE IF ~RestBalanced(TokensOf(r.out)) THEN "not balanced"
  ELSE IF r.name = "pre" /\ ShownText(r.out) # r.in THEN "text"
  ELSE IF r.name = "code" /\ r.pygments # "works" /\ ShownText(r.out) # r.in THEN "text"
  ELSE IF r.name = "code" /\ r.pygments = "works" /\ SameText(r.codes[1].html, r.in) /\ ~SameText(r.out, r.in) THEN "text"      \* some lexers of pygments lose text
  ELSE "ok"

Check ==
  LET r == Recs[rec]
      v == Judge(r)
  IN IF v = "ok" THEN TRUE
     ELSE PrintT("MISMATCH " \o ToJson([id |-> r.id, verdict |-> v, out |-> Want(r)]))
=============================================================================
