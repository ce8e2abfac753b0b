------------------------------- MODULE GqlHop -------------------------------
(***************************************************************************)
(* The pushback of the tokenizer: histories of Scan, Reset and Unwind.     *)
(* The text is a sequence of N tokens, of which the N-th and all later are *)
(* the end.  A history is printed with what each call has to be observed   *)
(* to do: the number of the token that Scan returns, and the number of the *)
(* token that Offset and TokenText describe after the call (0: none).      *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt, TLC, Json, IOUtils

Depth == atoi(IOEnv.GQL_DEPTH)

VARIABLES next,  \* tokens read from the text
          hop,   \* the last token was pushed back
          hist   \* <<call, token>>
vars == <<next, hop, hist>>

Init == next = 0 /\ hop = FALSE /\ hist = <<>>

Scan   == /\ next' = IF hop THEN next ELSE next + 1
          /\ hop' = FALSE
          /\ hist' = Append(hist, <<"scan", next'>>)
Reset  == /\ next' = next
          /\ hop' = (next > 0)            \* before the first token there is nothing to push back
          /\ hist' = Append(hist, <<"reset", next>>)
Unwind == /\ next' = next
          /\ hop' = FALSE
          /\ hist' = Append(hist, <<"unwind", next>>)
Next == Len(hist) < Depth /\ (Scan \/ Reset \/ Unwind)
Spec == Init /\ [][Next]_vars

----------------------------------------------------------------------------
Scans == SelectSeq(hist, LAMBDA h : h[1] = "scan")
\* nothing is lost and nothing is out of order: a scan returns the token after
\* the last one or, if that was pushed back, the same one
NoneLost == \A i \in 1..Len(Scans) : Scans[i][2] - (IF i = 1 THEN 0 ELSE Scans[i-1][2]) \in {0, 1}
Again    == \A i \in 2..Len(hist) :
              hist[i][1] = "scan" =>
                 (hist[i][2] = hist[i-1][2] <=> (hist[i-1][1] = "reset" /\ hist[i-1][2] > 0))
Show == Len(hist) = Depth => PrintT(ToJson([h |-> hist]))
=============================================================================
