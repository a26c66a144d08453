--------------------------------- MODULE Url ---------------------------------
(* the percent-encoded form of the path of an URI; everything else of the URI stays as it is
   (apart from empty queries and fragments, the case of the scheme, and control characters) *)
EXTENDS Text

UpHex(n) == IF n < 10 THEN 48 + n ELSE 55 + n
Pct(b) == << 37, UpHex(b \div 16), UpHex(b % 16) >>
Utf8(c) ==
  IF c < 128 THEN << c >>
  ELSE IF c < 2048 THEN << 192 + (c \div 64), 128 + (c % 64) >>
  ELSE IF c < 65536 THEN << 224 + (c \div 4096), 128 + ((c \div 64) % 64), 128 + (c % 64) >>
  ELSE << 240 + (c \div 262144), 128 + ((c \div 4096) % 64), 128 + ((c \div 64) % 64), 128 + (c % 64) >>
SafeC(c) == IsAlnum(c) \/ c \in {95, 46, 45, 126, 47, 37}
QuoteC(c) == IF SafeC(c) THEN << c >> ELSE LET u == Utf8(c) IN FlattenSeq([i \in 1..Len(u) |-> Pct(u[i])])
QuotePath(s) == MapText(QuoteC, s)

SchemeC(c) == IsAlnum(c) \/ c \in {43, 45, 46}
UsesNetloc == {T("ftp"), T("http"), T("gopher"), T("nntp"), T("telnet"), T("imap"), T("wais"), T("file"), T("mms"),
  T("https"), T("shttp"), T("snews"), T("prospero"), T("rtsp"), T("rtsps"), T("rtspu"), T("rsync"), T("svn"),
  T("svn+ssh"), T("sftp"), T("nfs"), T("git"), T("git+ssh"), T("ws"), T("wss"), T("itms-services")}
UsesParams == {<< >>, T("ftp"), T("hdl"), T("prospero"), T("http"), T("imap"), T("https"), T("shttp"), T("rtsp"),
  T("rtsps"), T("rtspu"), T("sip"), T("sips"), T("mms"), T("sftp"), T("tel")}



LastOf(s, c) == ScanBack(Len(s) + 1, 1, LAMBDA k : s[k] # c) - 1     \* the last c, 0 if there is none
CtlEnd(s, i) == Scan(s, i, LAMBDA k : s[k] > 32)

CutAt(s, c) ==    \* at the first c: before, behind
  LET p == FindChar(s, c, 1) IN
  IF p = 0 THEN [a |-> s, b |-> << >>] ELSE [a |-> SubSeq(s, 1, p - 1), b |-> SubSeq(s, p + 1, Len(s))]

\* ------------------------------------------------------------------ "[...]" in the authority: an IP literal
HexDigit(c) == IsDigit(c) \/ c \in 65..70 \/ c \in 97..102
Split(s, c) ==     \* the parts between the c's, as start and end positions
  LET at == SetToSortSeq({k \in 1..Len(s) : s[k] = c}, <)
      lo == << 0 >> \o at
      hi == at \o << Len(s) + 1 >>
  IN [i \in 1..Len(lo) |-> SubSeq(s, lo[i] + 1, hi[i] - 1)]
Number(s) == FoldLeft(LAMBDA n, c : IF n > 1000 THEN n ELSE 10 * n + c - 48, 0, s)
Octet(s) == Len(s) \in 1..3 /\ (\A k \in 1..Len(s) : IsDigit(s[k])) /\ Number(s) <= 255 /\ (Len(s) > 1 => s[1] # 48)
IPv4(s) == LET p == Split(s, 46) IN Len(p) = 4 /\ \A k \in 1..4 : Octet(p[k])
Hextet(s) == Len(s) \in 1..4 /\ \A k \in 1..Len(s) : HexDigit(s[k])
IPv6(s) ==
  LET z == FindChar(s, 37, 1)
      scope == IF z = 0 THEN << >> ELSE SubSeq(s, z + 1, Len(s))
      addr == IF z = 0 THEN s ELSE SubSeq(s, 1, z - 1)
      p0 == Split(addr, 58)
      last == p0[Len(p0)]
      dotted == FindChar(last, 46, 1) # 0
      p == IF dotted THEN SubSeq(p0, 1, Len(p0) - 1) \o << << 48 >>, << 48 >> >> ELSE p0
      n == Len(p)
      gaps == {k \in 2..(n - 1) : p[k] = << >>}
      words == Cardinality({k \in 1..n : p[k] # << >>})
  IN /\ z # 0 => scope # << >> /\ FindChar(scope, 37, 1) = 0
     /\ Len(p0) >= 3
     /\ dotted => IPv4(last)
     /\ \A k \in 1..n : p[k] = << >> \/ Hextet(p[k])
     /\ Cardinality(gaps) <= 1
     /\ (p[1] = << >> => 2 \in gaps)
     /\ (p[n] = << >> => (n - 1) \in gaps)
     /\ IF gaps = {} THEN n = 8 ELSE words <= 7
IPvFuture(s) ==
  LET dot == FindChar(s, 46, 1) IN
  dot > 2 /\ (\A k \in 2..(dot - 1) : HexDigit(s[k])) /\ dot < Len(s)
GoodBrackets(netloc) ==
  LET hp == SubSeq(netloc, LastOf(netloc, 64) + 1, Len(netloc))
      o == FindChar(hp, 91, 1)
      rest == SubSeq(hp, o + 1, Len(hp))
      c == FindChar(rest, 93, 1)
      colon == FindChar(hp, 58, 1)
      host == IF o = 0 THEN (IF colon = 0 THEN hp ELSE SubSeq(hp, 1, colon - 1))
              ELSE IF c = 0 THEN rest ELSE SubSeq(rest, 1, c - 1)
  IN /\ o <= 1
     /\ (o = 1 /\ c # 0 /\ c < Len(rest)) => rest[c + 1] = 58
     /\ IF StartsWith(host, << 118 >>) THEN IPvFuture(host) ELSE IPv6(host)

QuoteLink(uri) ==
  LET u0 == SelectSeq(SubSeq(uri, CtlEnd(uri, 1), Len(uri)), LAMBDA c : ~(c \in {9, 10, 13}))
      i == FindChar(u0, 58, 1)
      isscheme == i > 1 /\ IsAlpha(u0[1]) /\ \A k \in 1..(i - 1) : SchemeC(u0[k])
      scheme == IF isscheme THEN Lower(SubSeq(u0, 1, i - 1)) ELSE << >>
      u1 == IF isscheme THEN SubSeq(u0, i + 1, Len(u0)) ELSE u0
      auth == StartsWith(u1, << 47, 47 >>)
      d == FirstOfSet(u1, {47, 63, 35}, 3)
      netloc == IF auth THEN SubSeq(u1, 3, d - 1) ELSE << >>
      u2 == IF auth THEN SubSeq(u1, d, Len(u1)) ELSE u1
      f == CutAt(u2, 35)
      q == CutAt(f.a, 63)
      slash == LastOf(q.a, 47)
      semi == IF scheme \in UsesParams THEN FindChar(q.a, 59, slash + 1) ELSE 0
      path == QuotePath(IF semi = 0 THEN q.a ELSE SubSeq(q.a, 1, semi - 1))
      params == IF semi = 0 THEN << >> ELSE SubSeq(q.a, semi + 1, Len(q.a))
      p2 == IF params # << >> THEN path \o << 59 >> \o params ELSE path
      addauth == netloc # << >> \/ (scheme \in UsesNetloc /\ ~StartsWith(p2, << 47, 47 >>))
      p3 == IF addauth
            THEN << 47, 47 >> \o netloc \o (IF p2 # << >> /\ p2[1] # 47 THEN << 47 >> ELSE << >>) \o p2
            ELSE p2
      op == \E k \in 1..Len(netloc) : netloc[k] = 91
      cl == \E k \in 1..Len(netloc) : netloc[k] = 93
      brackets == op # cl \/ (op /\ cl /\ ~GoodBrackets(netloc))
  IN IF brackets THEN uri       \* not a valid uri: unchanged
     ELSE (IF scheme # << >> THEN scheme \o << 58 >> ELSE << >>) \o p3
          \o (IF q.b # << >> THEN << 63 >> \o q.b ELSE << >>)
          \o (IF f.b # << >> THEN << 35 >> \o f.b ELSE << >>)
=============================================================================
