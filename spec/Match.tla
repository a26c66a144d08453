-------------------------------- MODULE Match --------------------------------
(* comparison of an observed text with a specified one that may contain -1 for "anything" *)
EXTENDS Text

RECURSIVE MatchSeg(_, _, _, _)      \* parts: the literal parts between wildcards
MatchSeg(obs, i, parts, k) ==
  IF k > Len(parts) THEN TRUE
  ELSE IF k = Len(parts) THEN Len(obs) - Len(parts[k]) + 1 >= i /\ EndsWith(obs, parts[k])
  ELSE LET p == Find(obs, parts[k], i) IN p # 0 /\ MatchSeg(obs, p + Len(parts[k]), parts, k + 1)

Matches(obs, expected) ==
  IF ~(\E i \in 1..Len(expected) : expected[i] = -1) THEN obs = expected
  ELSE LET parts == SplitChar(expected, -1)
       IN StartsWith(obs, parts[1]) /\ MatchSeg(obs, Len(parts[1]) + 1, Tail(parts), 1)
=============================================================================
