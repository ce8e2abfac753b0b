--------------------------- MODULE GqlFormatOracle ---------------------------
(***************************************************************************)
(* Conformance of the texts that Format wrote: what each of them says, and *)
(* the words of which the canonical text consists.                         *)
(***************************************************************************)
EXTENDS GqlFormat, Json, IOUtils

Texts == ndJsonDeserialize(IOEnv.GQL_IN)

VARIABLES i, done
Init == i \in 1..Len(Texts) /\ done = FALSE
Outcome(z) ==
  IF z.err THEN [lex |-> TRUE, ok |-> FALSE, lo |-> 0, hi |-> 0, tree |-> None]
  ELSE [lex |-> FALSE, ok |-> Accepted(z.c), lo |-> z.c.lo, hi |-> z.c.hi,
        tree |-> IF Accepted(z.c) THEN Tree(z.c) ELSE None]
Next == /\ ~done /\ done' = TRUE /\ i' = i
        /\ LET z == Parse(Texts[i].c) o == Outcome(z)
           IN PrintT(ToJson([i |-> i, r |-> o, toks |-> z.toks,
                             w |-> IF o.ok THEN Words(o.tree) ELSE <<>>]))
=============================================================================
