----------------------------- MODULE CreoleDoc -----------------------------
(* creole2html as a function; Creole.tla is the same as a transition system *)
EXTENDS CreoleHtml

CR == 13
NormEol(s) == LET a == Subst(s, << CR, NL >>, << NL >>)
              IN [i \in 1..Len(a) |-> IF a[i] = CR THEN NL ELSE a[i]]

Tree(text, blog) ==
  LET s == NormEol(text)
      Block1(acc, i) ==         \* an empty match at i, and then another one behind it
        LET b == BlockAt(s, i, FALSE, blog)
            next == [to |-> b.m.to, out |-> Extend(acc.out, acc.open, b, blog), open |-> StaysOpen(acc.open, b)]
            b2 == BlockAt(s, i, TRUE, blog)
        IN IF b.m.to # i THEN next
           ELSE [to |-> b2.m.to, out |-> Extend(next.out, next.open, b2, blog), open |-> StaysOpen(next.open, b2)]
      w == Walk(1, Len(s) + 1, [to |-> 1, out |-> << >>, open |-> FALSE], Block1)
  IN w.out

(* the whole conversion as a function *)
CreoleToHtml(text, e) ==
  LET tree == Tree(text, e.blog)
      r == InOrder(tree, NewToc(tree, e), LAMBDA b, t : EmitBlock(b, e, t))
  IN [raised |-> r.tc.raised, err |-> r.tc.err, html |-> IF r.tc.raised THEN << >> ELSE PlaceToc(Strip(r.h), r.tc)]
=============================================================================
