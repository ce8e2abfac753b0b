------------------------------ MODULE GqlVars ------------------------------
(***************************************************************************)
(* The variables of one statement over long histories of SetVar.  The file *)
(* named by GQL_IN has, for each history, the names that the text assigns  *)
(* and the names of the calls; printed is which calls are accepted, and    *)
(* the names at the end.  GqlHeap has all short histories of several trees.*)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, TLC, Json, IOUtils

Histories == ndJsonDeserialize(IOEnv.GQL_IN)

VARIABLES h,    \* the history
          n,    \* calls made
          vs,   \* the names assigned, in order
          ok    \* whether each call was accepted
vars == <<h, n, vs, ok>>

Calls == Histories[h].calls
Init == /\ h \in 1..Len(Histories)
        /\ n = 0 /\ ok = <<>>
        /\ vs = Histories[h].text
Has(name) == \E i \in 1..Len(vs) : vs[i] = name
SetVar == /\ n < Len(Calls)
          /\ n' = n + 1
          /\ vs' = IF Has(Calls[n']) THEN vs ELSE Append(vs, Calls[n'])
          /\ ok' = Append(ok, ~Has(Calls[n']))
          /\ h' = h
Spec == Init /\ [][SetVar]_vars
----------------------------------------------------------------------------
OncePerName == Cardinality(ToSet(vs)) = Len(vs)
Grows == [][IsPrefix(vs, vs')]_vars
\* a refused name was there, an accepted one is there now
Kept == n > 0 => Has(Calls[n])
Counted == Len(vs) = Len(Histories[h].text) + Len(SelectSeq(ok, LAMBDA b : b))
Show == n = Len(Calls) => PrintT(ToJson([h |-> h, ok |-> ok, vs |-> vs]))
=============================================================================
