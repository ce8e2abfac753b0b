------------------------------ MODULE GqlCalls ------------------------------
(***************************************************************************)
(* Overlapping calls.  Each of P callers makes K calls one after another;  *)
(* a call begins and ends, and others may begin and end in between.  What  *)
(* a call gives is a function of its kind and its arguments alone: not of  *)
(* the calls that overlap with it, nor of those before it, however these   *)
(* ended.                                                                  *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, Json, IOUtils

P == atoi(IOEnv.GQL_P)
K == atoi(IOEnv.GQL_K)
\* parse a text / format, check, walk a tree that all callers share / scan
\* and calls that come to an end early: a text is rejected, a writer fails or
\* panics, types do not fit, a visitor panics, a text is not read to its end
Kinds == {"parse", "format", "check", "walk", "scan"}
         \cup (IF IOEnv.GQL_EARLY = "1" THEN {"reject", "fault", "burst", "refuse", "abort", "abandon"} ELSE {})

VARIABLES made,   \* calls each caller has begun
          open,   \* the kind of the call that it is in, or ""
          hist
vars == <<made, open, hist>>
Init == made = [p \in 1..P |-> 0] /\ open = [p \in 1..P |-> ""] /\ hist = <<>>

Begin(p, k) == /\ open[p] = "" /\ made[p] < K
               /\ made' = [made EXCEPT ![p] = @ + 1]
               /\ open' = [open EXCEPT ![p] = k]
               /\ hist' = Append(hist, <<"begin", p, k>>)
End(p) == /\ open[p] # ""
          /\ open' = [open EXCEPT ![p] = ""]
          /\ hist' = Append(hist, <<"end", p, open[p]>>)
          /\ UNCHANGED made
\* callers are alike: they begin in order
Next == \E p \in 1..P : (p > 1 => made[p-1] > 0) /\ ((\E k \in Kinds : Begin(p, k)) \/ End(p))
Spec == Init /\ [][Next]_vars /\ \A p \in 1..P : WF_vars(End(p))

Done == \A p \in 1..P : made[p] = K /\ open[p] = ""
Paired == \A p \in 1..P :
   LET q == SelectSeq(hist, LAMBDA e : e[2] = p)
   IN \A i \in 1..Len(q) : IF i % 2 = 1 THEN q[i][1] = "begin" ELSE q[i][1] = "end" /\ q[i][3] = q[i-1][3]
\* some histories overlap, that is what they are for
Overlap == \E i \in 1..Len(hist) - 1 : hist[i][1] = "begin" /\ hist[i+1][1] = "begin"
Show == Done => PrintT(ToJson([h |-> hist, overlap |-> Overlap]))
Returns == \A p \in 1..P : open[p] # "" ~> open[p] = ""
=============================================================================
