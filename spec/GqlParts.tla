------------------------------ MODULE GqlParts ------------------------------
(***************************************************************************)
(* The parts of syntax trees as variables: what a caller assigns to one    *)
(* part of one statement is found there, and nowhere else; parsing the     *)
(* same or another text, and formatting, checking and walking any          *)
(* statement, assign to nothing.                                           *)
(* A statement has the parts 1..2 (any two of them, chosen by the replay)  *)
(* and the rest; 0 stands for what was parsed, n for what the call n of    *)
(* the history assigned.  Statements are of text 1 or 2.                   *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, Json, IOUtils

Depth == atoi(IOEnv.GQL_DEPTH)
Parts == 1..2

VARIABLES heap, hist
vars == <<heap, hist>>

New(t) == [t |-> t, p |-> [k \in Parts |-> 0]]
Init == heap = <<>> /\ hist = <<>>

Log(op, o, k) == hist' = Append(hist, [op |-> op, o |-> o, k |-> k, after |-> heap'])

Parse(t) == /\ Len(heap) < 3
            /\ heap' = Append(heap, New(t))
            /\ Log("parse", Len(heap) + 1, t)
Put(o, k) == /\ heap' = [heap EXCEPT ![o].p[k] = Len(hist) + 1]
             /\ Log("put", o, k)
Read(o) == /\ heap' = heap
           /\ Log("read", o, 0)

Next == /\ Len(hist) < Depth
        /\ \/ \E t \in 1..2 : Parse(t)
           \/ \E o \in 1..Len(heap) : Read(o) \/ \E k \in Parts : Put(o, k)
Spec == Init /\ [][Next]_vars
----------------------------------------------------------------------------
Old == 1..Len(heap)
Last == hist'[Len(hist')]
\* at most the part that is assigned to differs afterwards, and has the new value
Apart == [][\A o \in Old : \A k \in Parts :
              IF Last.op = "put" /\ Last.o = o /\ Last.k = k THEN heap'[o].p[k] = Len(hist')
              ELSE heap'[o].p[k] = heap[o].p[k]]_vars
\* no two parts ever show the same assignment
Own == \A o, q \in Old : \A k, l \in Parts :
         heap[o].p[k] # 0 /\ heap[o].p[k] = heap[q].p[l] => o = q /\ k = l
Fresh == [][Len(heap') > Len(heap) => heap'[Len(heap')] \in {New(1), New(2)}]_vars
Show == Len(hist) = Depth => PrintT(ToJson([h |-> hist]))
=============================================================================
