------------------------------- MODULE GqlEdit -------------------------------
(***************************************************************************)
(* All texts that differ from some sentence by a few edits: a word more, a *)
(* word less, another word, two words exchanged, or some words in a row    *)
(* once more.  GqlEnum visits every text one word beyond a viable one;     *)
(* here the rest of the sentence follows the edit, so that whatever the    *)
(* edit has spoiled must be noticed although everything else is in order.  *)
(*                                                                         *)
(* The sentences stand in the file named by GQL_EDIT, the vocabularies are *)
(* the families' words.  A state has read the sentence up to word i; a     *)
(* configuration that is dead stays dead (DeadStaysDead), whatever is left.*)
(***************************************************************************)
EXTENDS GqlEnum

Sentences == ndJsonDeserialize(IOEnv.GQL_EDIT)
MaxEdits  == atoi(IOEnv.GQL_EDITS)

VARIABLES i,    \* the next word of the sentence
          es    \* the edits made: <<what, at word, word of the vocabulary>>

Words  == Sentences[f].s
Vocab  == Families[Sentences[f].v].words
Open   == Viable(z.c) /\ ~z.lx.err

EInit == /\ f \in 1..Len(Sentences)
         /\ ws = <<>> /\ i = 1 /\ es = <<>>
         /\ z = Fresh

MayEdit == Len(es) < MaxEdits /\ i > Sentences[f].from
Keep == /\ i <= Len(Words)
        /\ z' = Read(z, Word(Words[i])) /\ i' = i + 1 /\ es' = es
Delete == /\ i <= Len(Words) /\ MayEdit
          /\ z' = z /\ i' = i + 1 /\ es' = Append(es, <<"del", i, 0>>)
Insert == /\ MayEdit
          /\ \E v \in 1..Len(Vocab) : z' = Read(z, Word(Vocab[v])) /\ es' = Append(es, <<"ins", i, v>>)
          /\ i' = i
Replace == /\ i <= Len(Words) /\ MayEdit
           /\ \E v \in 1..Len(Vocab) :
                 /\ Vocab[v] # Words[i]
                 /\ z' = Read(z, Word(Vocab[v])) /\ es' = Append(es, <<"rep", i, v>>)
           /\ i' = i + 1
Exchange == /\ i < Len(Words) /\ MayEdit /\ Words[i] # Words[i+1]
        /\ z' = Read(Read(z, Word(Words[i+1])), Word(Words[i]))
        /\ i' = i + 2 /\ es' = Append(es, <<"swap", i, 0>>)
\* what was just read, again
Echo == /\ MayEdit
        /\ \E k \in 2..9 :
              /\ k < i
              /\ z' = FoldLeft(Read, z, [n \in 1..k |-> Word(Words[i-k-1+n])])
              /\ es' = Append(es, <<"echo", i, k>>)
        /\ i' = i

ENext == /\ Open
         /\ Keep \/ Delete \/ Insert \/ Replace \/ Exchange \/ Echo
         /\ UNCHANGED <<f, ws>>

EShow == (i > Len(Words) \/ ~Open) =>
           PrintT(ToJson([Ended EXCEPT !.w = <<i, es>>]))
\* reading on does not revive a dead configuration, nor move its verdict
DeadStaysDead == (~Open /\ i <= Len(Words)) =>
   LET y == Read(z, Word(Words[i]))
   IN y.lx.err \/ z.lx.err \/ (~Viable(y.c) /\ y.c.lo = z.c.lo /\ y.c.hi = z.c.hi)
=============================================================================
