------------------------------ MODULE GqlOracle ------------------------------
(***************************************************************************)
(* Conformance of recorded texts: for every text of the file named by the  *)
(* environment variable GQL_IN (one JSON array of characters per line) the *)
(* outcome that the specification prescribes is printed as one JSON line.  *)
(***************************************************************************)
EXTENDS GqlParse, Json, IOUtils

Texts == ndJsonDeserialize(IOEnv.GQL_IN)

VARIABLES i, done
Init == i \in 1..Len(Texts) /\ done = FALSE
Outcome(z) ==
  IF z.err THEN [lex |-> TRUE, ok |-> FALSE, lo |-> 0, hi |-> 0, tree |-> None]
  ELSE [lex |-> FALSE, ok |-> Accepted(z.c), lo |-> z.c.lo, hi |-> z.c.hi,
        tree |-> IF Accepted(z.c) THEN Tree(z.c) ELSE None]
Next == /\ ~done /\ done' = TRUE /\ i' = i
        /\ LET z == Parse(Texts[i].c)
           IN PrintT(ToJson([i |-> i, r |-> Outcome(z), toks |-> z.toks]))
=============================================================================
