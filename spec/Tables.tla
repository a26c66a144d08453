------------------------------- MODULE Tables -------------------------------
(* Tables as markup.  A table: [rows |-> sequence of rows of cell texts, head |-> has it a headline]. *)
EXTENDS WidthTable

NewTable == [rows |-> << >>, head |-> FALSE]
AddRowT(t) == [t EXCEPT !.rows = Append(@, << >>)]
AddCellT(t, text) ==
  LET u == IF t.rows = << >> THEN AddRowT(t) ELSE t
  IN [u EXCEPT !.rows[Len(u.rows)] = Append(@, text)]
AddHeadT(t, prefix, text) == [AddCellT(t, prefix \o text) EXCEPT !.head = TRUE]

PadCell(prefix, cell) ==
  LET c == Strip(cell) IN
  IF c = << >> THEN c
  ELSE IF prefix # << >> /\ StartsWith(c, prefix) THEN c \o << SP >>
  ELSE << SP >> \o c \o << SP >>

Padded(t, prefix) == [i \in 1..Len(t.rows) |-> [j \in 1..Len(t.rows[i]) |-> PadCell(prefix, t.rows[i][j])]]
MaxOf(S) == IF S = {} THEN 0 ELSE Max(S)
WidthsBy(rows, Width(_)) ==
  LET n == MaxOf({Len(rows[i]) : i \in 1..Len(rows)})
  IN [j \in 1..n |-> MaxOf({Width(rows[i][j]) : i \in {i \in 1..Len(rows) : Len(rows[i]) >= j}})]
Widths(rows) == WidthsBy(rows, Len)

BAR == << 124 >>
JoinRow(cells) == BAR \o Join(cells, BAR) \o BAR
Cell(row, j) == IF j <= Len(row) THEN row[j] ELSE << >>

PlainTable(t) == Join([i \in 1..Len(t.rows) |-> JoinRow(t.rows[i])], << NL >>)

(* a table in a cell of another table; filling up its cells would double its size with every level *)
InnerTable(t) == Join([i \in 1..Len(t.rows) |-> T("| ") \o Join([j \in 1..Len(t.rows[i]) |-> Strip(t.rows[i][j])], T(" | ")) \o T(" |")], << NL >>)

AlignedTable(t, prefix) ==
  LET rows == Padded(t, prefix)
      w == Widths(rows)
  IN Join([i \in 1..Len(rows) |-> JoinRow([j \in 1..Len(rows[i]) |-> LJust(rows[i][j], w[j])])], << NL >>)

FullRow(row, w) == JoinRow([j \in 1..Len(w) |-> LJust(Cell(row, j), w[j])])

GridTable(t) ==
  LET rows == Padded(t, << >>)
      w == Eager(WidthsBy(rows, DisplayWidth))
      Filled(row) == JoinRow([j \in 1..Len(w) |-> LET c == Cell(row, j) IN c \o [k \in 1..(w[j] - DisplayWidth(c)) |-> SP]])
      Line(c) == << 43 >> \o Join([j \in 1..Len(w) |-> [k \in 1..w[j] |-> c]], << 43 >>) \o << 43 >>
      lines == FlattenSeq([i \in 1..Len(rows) |->
                 << Line(IF i = 2 /\ t.head THEN 61 ELSE 45), Filled(rows[i]) >>])
  IN Join(lines \o << Line(45) >>, << NL >>)

PipeTable(t) ==
  LET rows == Padded(t, << >>)
      w == Widths(rows)
      sep == << 124, 32 >> \o Join([j \in 1..Len(w) |-> [k \in 1..(w[j] - 2) |-> 45]], T(" | ")) \o << 32, 124 >>
      lines == FlattenSeq([i \in 1..Len(rows) |->
                 (IF i = 2 /\ t.head THEN << sep >> ELSE << >>) \o << FullRow(rows[i], w) >>])
  IN Join(lines, << NL >>)
=============================================================================
