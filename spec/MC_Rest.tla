------------------------------ MODULE MC_Rest ------------------------------
(* Cleaning html code (Rest.tla), for every text of up to so many pieces of html code:
   text and nesting are kept, nothing that is to be removed is left, and doing it again changes nothing. *)
EXTENDS Rest, Json, IOUtils

VARIABLE t
Plan == JsonDeserialize(IOEnv.PLAN)
Frags == Plan.frags

Init == t = << >>
Next == Len(t) < Plan.max /\ \E i \in 1..Len(Frags) : t' = Append(t, i)

Source == FlattenSeq([i \in 1..Len(t) |-> Frags[t[i]]])
TextOf(toks) == FlattenSeq([i \in 1..Len(toks) |-> IF toks[i].k = "text" THEN NoWs(toks[i].t) ELSE << >>])

Cleaning ==
  LET toks == TokensOf(Source)
      clean == CleanTokens(toks)
      shown == Shown(Source)
  IN /\ TextOf(shown) = TextOf(toks)
     /\ (RestBalanced(toks) => RestBalanced(clean) /\ RestBalanced(shown))
     /\ ~HasWrapper(shown) /\ ~HasStyle(shown)
     /\ CleanTokens(clean) = clean
     /\ Len(shown) <= Len(toks)
=============================================================================
