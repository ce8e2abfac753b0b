------------------------------ MODULE ScanBuf ------------------------------
(***************************************************************************)
(* The read buffer of the scanner (scanner.next) under every way in which a*)
(* reader may deliver a text: any split into chunks, empty reads, the end  *)
(* together with the last bytes or after them, and - if FAULTS is set - a  *)
(* read that fails, with bytes or without.                                 *)
(*                                                                         *)
(* A text is a sequence of bytes; the i-th byte of a character of w bytes  *)
(* is <<c, i, w>>.  Tokens are the longest runs of characters that are not *)
(* blank: what matters is that their text survives refilling the buffer.   *)
(* The code has a buffer of 1024 bytes, the model one of BUF.              *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt, TLC, Json, IOUtils

BUF    == 5
FAULTS == IOEnv.GQL_FAULTS = "1"
MaxLen == atoi(IOEnv.GQL_LEN)

B1(c) == <<<<c, 1, 1>>>>
Ee == <<<<"e2", 1, 2>>, <<"e2", 2, 2>>>>
Ri == <<<<"r3", 1, 3>>, <<"r3", 2, 3>>, <<"r3", 3, 3>>>>
Sm == <<<<"s4", 1, 4>>, <<"s4", 2, 4>>, <<"s4", 3, 4>>, <<"s4", 4, 4>>>>
\* whole characters, and the beginning of one (what follows cannot complete it)
Pieces == <<B1("a"), B1("_"), Ee, Ri, Sm, SubSeq(Sm, 1, 2)>>
PieceName == <<"a", " ", "é", "日", "😀", "CUT">>

VARIABLES txt,   \* pieces of the text
          rd,    \* bytes delivered
          fin,   \* the reader has reported the end ("end") or failed ("fail")
          reads, \* what the reads returned: <<n, "ok" | "end" | "fail">>
          buf, sp, base, tp, tbuf,   \* srcBuf[:srcEnd], srcPos, srcBufOffset, tokPos, tokBuf
          broke, \* the refill loop was left because of the reader's report
          err, out, toks, pc
vars == <<txt, rd, fin, reads, buf, sp, base, tp, tbuf, broke, err, out, toks, pc>>

Bytes == FoldLeft(LAMBDA a, i : a \o Pieces[i], <<>>, txt)
Rest  == SubSeq(buf, sp + 1, Len(buf))

\* utf8.FullRune: complete, or known to be broken
Cont(q, n) == \A i \in 2..n : q[i] = <<q[1][1], i, q[1][3]>>
Full(q) == /\ q # <<>>
           /\ LET w == q[1][3] n == IF Len(q) < w THEN Len(q) ELSE w
              IN Len(q) >= w \/ q[1][2] # 1 \/ ~Cont(q, n)
Ascii(q) == q # <<>> /\ q[1][3] = 1
\* one character: <<name, width>>
Decode(q) == LET w == q[1][3]
             IN IF q[1][2] = 1 /\ Len(q) >= w /\ Cont(q, w) THEN <<q[1][1], w>> ELSE <<"BAD", 1>>

Init == /\ txt \in UNION {[1..n -> 1..Len(Pieces)] : n \in 0..MaxLen}
        /\ rd = 0 /\ fin = "" /\ reads = <<>>
        /\ buf = <<>> /\ sp = 0 /\ base = 0 /\ tp = -1 /\ tbuf = <<>>
        /\ broke = FALSE /\ err = FALSE /\ out = <<>> /\ toks = <<>> /\ pc = "next"

NeedRead == pc = "next" /\ ~broke /\ ~Ascii(Rest) /\ sp + 4 > Len(buf) /\ ~Full(Rest)

\* the buffer after a read of n bytes
Refill(n) == /\ tbuf' = IF tp >= 0 THEN tbuf \o SubSeq(buf, tp + 1, sp) ELSE tbuf
             /\ tp'   = IF tp >= 0 THEN 0 ELSE tp
             /\ buf'  = Rest \o SubSeq(Bytes, rd + 1, rd + n)
             /\ base' = base + sp
             /\ sp'   = 0
             /\ rd'   = rd + n
Room == BUF - Len(Rest)
Left == Len(Bytes) - rd

EndToken(q, t, b, at) == IF t >= 0 THEN Append(q, [x |-> b, o |-> at - Len(b)]) ELSE q
AtEnd(n) == Len(Rest) + n = 0
\* a read that reports the end or a failure: leave the loop, or the text ends
Report(n, kind) ==
  /\ Refill(n)
  /\ fin' = IF fin = "fail" THEN fin ELSE kind
  /\ reads' = Append(reads, <<n, kind>>)
  /\ err' = (err \/ kind = "fail")
  /\ IF AtEnd(n)
     THEN /\ pc' = "done" /\ broke' = FALSE
          /\ toks' = EndToken(toks, tp, tbuf', base + sp)
     ELSE pc' = pc /\ broke' = TRUE /\ toks' = toks
  /\ UNCHANGED <<txt, out>>

ReadSome == /\ NeedRead /\ fin = ""
            /\ \E n \in 1..(IF Left < Room THEN Left ELSE Room) :
                  Refill(n) /\ reads' = Append(reads, <<n, "ok">>)
            /\ UNCHANGED <<txt, fin, broke, err, out, toks, pc>>
ReadNothing == /\ NeedRead /\ fin = "" /\ Left > 0
               /\ \A i \in 1..Len(reads) : reads[i][1] > 0      \* one empty read per run
               /\ Refill(0) /\ reads' = Append(reads, <<0, "ok">>)
               /\ UNCHANGED <<txt, fin, broke, err, out, toks, pc>>
ReadEnd == NeedRead /\ fin \in {"", "end"} /\ Left <= Room /\ Report(Left, "end")
ReadFail == /\ FAULTS /\ NeedRead
            /\ \/ fin = "" /\ \E n \in 0..(IF Left < Room THEN Left ELSE Room) : Report(n, "fail")
               \/ fin = "fail" /\ \E k \in {"fail", "end"} : Report(0, k)   \* it fails again, or ends

Take == /\ pc = "next" /\ ~NeedRead /\ Rest # <<>>
        /\ LET d == Decode(Rest)
               blank == d[1] = "_"
           IN /\ out' = Append(out, <<d[1], base + sp>>)
              /\ err' = (err \/ d[1] = "BAD")
              /\ sp' = sp + d[2]
              /\ IF blank
                 THEN /\ toks' = EndToken(toks, tp, tbuf \o SubSeq(buf, tp + 1, sp), base + sp)
                      /\ tp' = -1 /\ tbuf' = <<>>
                 ELSE /\ toks' = toks
                      /\ tp' = IF tp >= 0 THEN tp ELSE sp
                      /\ tbuf' = tbuf
        /\ broke' = FALSE
        /\ UNCHANGED <<txt, rd, fin, reads, buf, base, pc>>

Next == ReadSome \/ ReadNothing \/ ReadEnd \/ ReadFail \/ Take
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

----------------------------------------------------------------------------
(* what the text is, however it is delivered                                *)

Delivered == SubSeq(Bytes, 1, rd)
RECURSIVE DecodeAll(_, _)
DecodeAll(q, o) == IF q = <<>> THEN <<>>
                   ELSE LET d == Decode(q)
                        IN <<<<d[1], o>>>> \o DecodeAll(SubSeq(q, d[2] + 1, Len(q)), o + d[2])
\* runs of characters that are not blank
Runs(q) == LET z == FoldLeft(LAMBDA a, i : IF q[i][1] = "_"
                               THEN [t |-> IF a.x = <<>> THEN a.t ELSE Append(a.t, [x |-> a.x, o |-> a.o]), x |-> <<>>, o |-> 0]
                               ELSE [a EXCEPT !.x = Append(@, q[i]), !.o = IF a.x = <<>> THEN i - 1 ELSE @],
                             [t |-> <<>>, x |-> <<>>, o |-> 0], [i \in 1..Len(q) |-> i])
           IN IF z.x = <<>> THEN z.t ELSE Append(z.t, [x |-> z.x, o |-> z.o])

Bounded   == Len(buf) <= BUF /\ sp <= Len(buf) /\ (NeedRead => Room > 0)
Prefix    == IsPrefix(out, DecodeAll(Delivered, 0))
Faithful  == pc = "done" =>
               /\ out  = DecodeAll(Delivered, 0)
               /\ toks = Runs(Delivered)
               /\ fin # "fail" => rd = Len(Bytes)
               /\ err = (fin = "fail" \/ (\E i \in 1..Len(out) : out[i][1] = "BAD"))
\* after an empty read, any number of them change nothing: Refill(0) is a
\* stuttering step
Stutter == pc = "next" /\ NeedRead /\ reads # <<>> /\ reads[Len(reads)] = <<0, "ok">>
             => sp = 0 /\ tp <= 0 /\ Rest = buf
NeverStuck == pc # "done" => ENABLED Next
Show == pc = "done" => PrintT(ToJson([p |-> [i \in 1..Len(txt) |-> PieceName[txt[i]]], reads |-> reads, fail |-> fin = "fail"]))
Ends == <>(pc = "done")
=============================================================================
