------------------------------ MODULE GqlHeap ------------------------------
(***************************************************************************)
(* Syntax trees as values: histories of calls by one caller.  Parse makes  *)
(* a new tree, whatever was parsed before and whatever became of it; only  *)
(* SetVar and the caller's own assignments (Scribble) change a tree, and   *)
(* only that tree; Read - Format, CheckType and Walk - changes none.       *)
(* A tree is the text it was parsed from (1: without variables, 2: with    *)
(* the variable "x"), its variable names, and whether it was scribbled on. *)
(* Every call is printed with what it has to give.                         *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt, TLC, Json, IOUtils

Depth == atoi(IOEnv.GQL_DEPTH)
Names == {"x", "X", "y"}
VarsOf(t) == IF t = 1 THEN <<>> ELSE <<"x">>

VARIABLES heap, hist
vars == <<heap, hist>>

Obj(t) == [t |-> t, v |-> VarsOf(t), s |-> FALSE]
Init == heap = <<>> /\ hist = <<>>

Has(o, n) == \E i \in 1..Len(heap[o].v) : heap[o].v[i] = n
Log(op, o, n, ok, after) == hist' = Append(hist, [op |-> op, o |-> o, n |-> n, ok |-> ok, after |-> after])

Parse(t) == /\ Len(heap) < 3
            /\ heap' = Append(heap, Obj(t))
            /\ Log("parse", Len(heap) + 1, ToString(t), TRUE, heap')
SetVar(o, n) == /\ heap' = IF Has(o, n) THEN heap ELSE [heap EXCEPT ![o].v = Append(@, n)]
                /\ Log("setvar", o, n, ~Has(o, n), heap')
Scribble(o) == /\ ~heap[o].s
               /\ heap' = [heap EXCEPT ![o].s = TRUE]
               /\ Log("scribble", o, "", TRUE, heap')
Read(o) == /\ heap' = heap
           /\ Log("read", o, "", TRUE, heap')

Next == /\ Len(hist) < Depth
        /\ \/ \E t \in 1..2 : Parse(t)
           \/ \E o \in 1..Len(heap) : Scribble(o) \/ Read(o) \/ \E n \in Names : SetVar(o, n)
Spec == Init /\ [][Next]_vars
----------------------------------------------------------------------------
OncePerName == \A o \in 1..Len(heap) : \A i, j \in 1..Len(heap[o].v) : heap[o].v[i] = heap[o].v[j] => i = j
\* a call changes at most the tree it is about
Local == [][\A o \in 1..Len(heap) : heap'[o] = heap[o] \/ hist'[Len(hist')].o = o]_vars
\* variables are only added, at the end
Grows == [][\A o \in 1..Len(heap) : IsPrefix(heap[o].v, heap'[o].v)]_vars
\* parsing does not depend on the history
Fresh == [][Len(heap') > Len(heap) => heap'[Len(heap')] \in {Obj(1), Obj(2)}]_vars
Show == Len(hist) = Depth => PrintT(ToJson([h |-> hist]))
=============================================================================
