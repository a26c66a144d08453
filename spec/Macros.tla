------------------------------- MODULE Macros -------------------------------
(* The macros of creole.shared.example_macros, which show their text.
   How code is highlighted is the business of pygments: codes is a sequence of [name, text, html], what pygments makes
   of a text with the lexer of that name (or the one it guesses if there is no such lexer). *)
EXTENDS PyText

PreMacro(text) == T("<pre>") \o Escape(text) \o T("</pre>")

(* ".py" and "py" both name the lexer "py" *)
LexerName(ext) ==
  LET s == Strip(ext)
      p == SplitChar(s, 46)
  IN IF Len(p) > 1 THEN p[2] ELSE s

(* every line end is also written as a tag *)
LineBreaks(html) == Subst(html, << 10 >>, T("<br />\n"))
CodeMacro(codes, ext, text) ==
  LET fits == {i \in 1..Len(codes) : codes[i].name = LexerName(ext) /\ codes[i].text = text}
  IN IF fits = {} THEN T("not recorded") ELSE LineBreaks(codes[CHOOSE i \in fits : TRUE].html)
=============================================================================
