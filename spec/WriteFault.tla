----------------------------- MODULE WriteFault -----------------------------
(***************************************************************************)
(* Format and a writer that fails.  The output is a sequence of n chunks;  *)
(* the writer fails at the k-th call, once or from then on, and may take a *)
(* part of the chunk, or all of it, before it fails.  Format has to stop there and return *)
(* that error; without a fault it returns none after the last chunk.       *)
(* Every behaviour is printed; k = 0 is no fault.                          *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, Json, IOUtils

Max == atoi(IOEnv.GQL_MAX)
Kinds == {"once", "forever", "part", "full"}

VARIABLES n, k, kind,      \* the plan
          i,               \* calls of the writer so far
          taken,           \* whole chunks that the writer took
          ret              \* "", then what Format returned

vars == <<n, k, kind, i, taken, ret>>
Init == /\ n \in 1..Max /\ k \in 0..n
        /\ kind \in (IF k = 0 THEN {"none"} ELSE Kinds)
        /\ i = 0 /\ taken = 0 /\ ret = ""

Fails(call) == k > 0 /\ (call = k \/ (kind = "forever" /\ call > k))
Write == /\ ret = "" /\ i < n
         /\ i' = i + 1
         /\ IF Fails(i + 1) THEN ret' = "fault" /\ taken' = taken
                            ELSE ret' = ret /\ taken' = taken + 1
         /\ UNCHANGED <<n, k, kind>>
Return == ret = "" /\ i = n /\ ret' = "nil" /\ UNCHANGED <<n, k, kind, i, taken>>
Next == Write \/ Return

\* nothing is written after a fault, the fault is reported, and without one
\* all is written
Stops     == ret # "" => i = taken + (IF ret = "fault" THEN 1 ELSE 0)
Reported  == ret # "" => (ret = "fault" <=> k > 0)
Complete  == ret = "nil" => taken = n
Prefix    == taken <= i /\ (k > 0 => taken < k)
Show == ret # "" => PrintT(ToJson([n |-> n, k |-> k, kind |-> kind, calls |-> i, taken |-> taken, ret |-> ret]))
=============================================================================
