--------------------------- MODULE GqlTypesOracle ---------------------------
(* The judgement of every text of the file GQL_IN, with its dictionary.     *)
EXTENDS GqlTypes, Json, IOUtils

Texts == ndJsonDeserialize(IOEnv.GQL_IN)

VARIABLES i, done
Init == i \in 1..Len(Texts) /\ done = FALSE
Next == /\ ~done /\ done' = TRUE /\ i' = i
        /\ LET z == Parse(Texts[i].c)
               ok == ~z.err /\ Accepted(z.c)
           IN PrintT(ToJson([i |-> i, ok |-> ok,
                bad |-> IF ok THEN JudgeStatement(Tree(z.c), Texts[i].d).bad ELSE ""]))
=============================================================================
