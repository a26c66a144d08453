------------------------------- MODULE Readme -------------------------------
(***************************************************************************)
(* The README functions of creole.setup_utils as a machine over the files  *)
(* of a package: README.creole is edited by the user, README.rst and       *)
(* README.md are generated, README.html is a by-product.                   *)
(*                                                                         *)
(* files: name -> bytes;  names: [creole, rst, md, html] the file names    *)
(* An operation op:                                                        *)
(*   [op |-> "edit", name, data]   the user writes a file                  *)
(*   [op |-> "remove", name]                                               *)
(*   [op |-> "update", kind]   kind "rst" or "md"                          *)
(*   [op |-> "assert", kind]                                               *)
(*   [op |-> "describe", mode, argv]   the text of get_long_description();  *)
(*        mode "yes", "no" or "auto": are errors raised?                     *)
(* and facts about the world: op.when, the modification time of the source *)
(* as text, and op.valid, whether docutils accepts the text.               *)
(***************************************************************************)
EXTENDS Codec

D == INSTANCE CreoleDoc
H == INSTANCE Emitters

CR == 13
UniversalNewlines(s) ==
  LET a == Subst(s, << CR, NL >>, << NL >>) IN [i \in 1..Len(a) |-> IF a[i] = CR THEN NL ELSE a[i]]
ReadText(files, name) ==
  LET d == IF name \in DOMAIN files THEN Utf8Decode(files[name]) ELSE Bad
  IN IF d.ok THEN Good(UniversalNewlines(d.v)) ELSE Bad

HtmlOf(text, asis) ==
  D!CreoleToHtml(text, [blog |-> TRUE, macros |-> "none", verbose |-> 1, strict |-> FALSE, asis |-> asis]).html
Target(kind) == IF kind = "rst" THEN "rest" ELSE "markdown"
MarkupOf(html, target, policy, asis) ==
  LET r == H!HtmlTo(html, [target |-> target, strict |-> FALSE, policy |-> policy, asis |-> asis])
  IN IF r.exc = "" THEN Good(r.out) ELSE Bad

(* the generated markup *)
Generated(files, names, kind, asis) ==
  LET s == ReadText(files, names.creole)
      html == HtmlOf(Strip(s.v), asis)
      m == MarkupOf(html, Target(kind), "raise", asis)
  IN [readable |-> s.ok, html |-> IF s.ok THEN html ELSE << >>, ok |-> s.ok /\ m.ok, v |-> IF s.ok THEN m.v ELSE << >>]

(* the note at the end of a generated file *)
Rule == T("\n\n------------\n\n")
Note(name, when) == T("``Note: this file is generated from ") \o name \o T(" ") \o when \o T(" with \"python-creole\"``")

(* a generated file without its note: the last four line ends and what's behind them *)
WithoutNote(text) ==
  LET p == Positions(text, LAMBDA i : text[i] = NL)
  IN IF p = << >> THEN text ELSE SubSeq(text, 1, p[Max2(1, Len(p) - 3)] - 1)

UpToDate(files, name, text) ==      \* "yes", "no" or "unreadable"
  IF name \notin DOMAIN files THEN "no"
  ELSE LET old == ReadText(files, name) IN
       IF ~old.ok THEN "unreadable" ELSE IF WithoutNote(old.v) = text THEN "yes" ELSE "no"

Put1(files, name, data) == [f \in DOMAIN files \cup {name} |-> IF f = name THEN data ELSE files[f]]
(* the markdown functions also write the html code *)
WithHtml(files, names, kind, g) ==
  IF kind = "md" /\ g.readable THEN Put1(files, names.html, Utf8Encode(g.html).v) ELSE files

Res(ok, files, wrote, text) == [ok |-> ok, files |-> files, wrote |-> wrote, text |-> text, stale |-> FALSE]

Update(files, names, op, asis) ==
  LET g == Generated(files, names, op.kind, asis)
      name == IF op.kind = "rst" THEN names.rst ELSE names.md
      base == WithHtml(files, names, op.kind, g)
      html == IF op.kind = "md" /\ g.readable THEN {names.html} ELSE {}
      state == UpToDate(base, name, g.v)
      new == Utf8Encode(g.v \o Rule \o Note(op.source, op.when)).v
  IN IF ~g.ok \/ (op.kind = "rst" /\ ~op.valid) \/ state = "unreadable" THEN Res(FALSE, base, html, << >>)
     ELSE IF state = "yes" THEN Res(TRUE, base, html, T(name))
     ELSE Res(TRUE, Put1(base, name, new), html \cup {name}, T(name))

AssertUpToDate(files, names, op, asis) ==
  LET g == Generated(files, names, op.kind, asis)
      name == IF op.kind = "rst" THEN names.rst ELSE names.md
      base == WithHtml(files, names, op.kind, g)
      html == IF op.kind = "md" /\ g.readable THEN {names.html} ELSE {}
      old == ReadText(base, name)
      able == g.ok /\ (op.kind = "rst" => op.valid) /\ old.ok
      ok == able /\ old.v # << >> /\ WithoutNote(old.v) = g.v
  IN [Res(ok, base, html, << >>) EXCEPT !.stale = able /\ ~ok]

(* "auto": errors are raised if the command line is empty or asks for something that publishes *)
Publishing == {"check", "register", "sdist", "bdist", "upload", "--long-description", "--restructuredtext"}
Raises(op) == op.mode = "yes" \/ (op.mode = "auto" /\ (op.argv = << >> \/ \E i \in 1..Len(op.argv) : op.argv[i] \in Publishing))

ERRTEXT == T("[Error: ") \o << -1 >> \o T("]\n")
Describe(files, names, op, asis) ==
  LET d == IF names.creole \in DOMAIN files THEN Utf8Decode(files[names.creole]) ELSE Bad
      text == IF d.ok THEN Strip(d.v) ELSE << >>
      m == IF d.ok THEN MarkupOf(HtmlOf(text, asis), "rest", IF Raises(op) THEN "raise" ELSE "transparent", asis) ELSE Bad
  IN IF m.ok THEN IF Raises(op) /\ ~op.valid THEN Res(FALSE, files, {}, << >>) ELSE Res(TRUE, files, {}, m.v)
     ELSE IF Raises(op) THEN Res(FALSE, files, {}, << >>)
     ELSE Res(TRUE, files, {}, ERRTEXT \o text)

Do(files, names, op, asis) ==
  CASE op.op = "edit"   -> Res(TRUE, Put1(files, op.name, op.data), {op.name}, << >>)
    [] op.op = "remove" -> Res(TRUE, [f \in DOMAIN files \ {op.name} |-> files[f]], {}, << >>)
    [] op.op = "update" -> Update(files, names, op, asis)
    [] op.op = "assert" -> AssertUpToDate(files, names, op, asis)
    [] op.op = "describe" -> Describe(files, names, op, asis)
=============================================================================
