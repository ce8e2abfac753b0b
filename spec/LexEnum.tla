------------------------------- MODULE LexEnum -------------------------------
(***************************************************************************)
(* All texts of a bounded shape, character by character: a family is a     *)
(* prefix followed by at most depth words over an alphabet of characters   *)
(* or short strings, without blanks in between.  A state is the            *)
(* configuration of the two transducers of GqlLex; it is printed with the  *)
(* tokens of the text that ends here.  A lexical error is not extended:    *)
(* nothing repairs it.                                                     *)
(***************************************************************************)
EXTENDS GqlParse, Json, IOUtils

Families == ndJsonDeserialize(IOEnv.GQL_ENUM)

\* The configurations are functions of the text and no variables: TLC keeps
\* only the low bytes of characters in states that it moves to disk.
VARIABLES f, ws
vars == <<f, ws>>

ReadAll(y, chars) == LET c == FoldLeft(LexStep, y.lx, chars)
                     IN [lx |-> [c EXCEPT !.out = <<>>], mg |-> FoldLeft(MergeStep, y.mg, c.out)]
After(g, w) == FoldLeft(LAMBDA y, i : ReadAll(y, Families[g].words[i]),
                        ReadAll([lx |-> LexInit, mg |-> MergeInit], Families[g].prefix), w)

Init == f \in 1..Len(Families) /\ ws = <<>>
Next == /\ Len(ws) < Families[f].depth
        /\ ~After(f, ws).lx.err
        /\ \E w \in 1..Len(Families[f].words) : ws' = Append(ws, w)
        /\ f' = f

\* the tokens of the text that ends here; those before a lexical error
Ended(y) == LET c == LexEnd(y.lx) IN [bad |-> c.err, q |-> FoldLeft(MergeStep, y.mg, c.out).out]

Show == LET y == After(f, ws)
            d == Ended(y)
            q == IF d.bad THEN y.mg.out ELSE d.q
        IN PrintT(ToJson([f |-> f, w |-> ws, err |-> d.bad, dead |-> y.lx.err, toks |-> q,
                          prec |-> [i \in 1..Len(q) |-> Prec(q[i].t)]]))

----------------------------------------------------------------------------
(* what the transducers themselves have to satisfy                          *)

Text == FoldLeft(LAMBDA a, w : a \o Families[f].words[w], Families[f].prefix, ws)

\* tokens lie in the text, in order; the last one, and only that, is the end
Shape(q) == /\ q[Len(q)].t = "EOF"
            /\ \A i \in 1..Len(q) - 1 : q[i].t # "EOF" /\ q[i].o <= q[i].e /\ q[i].e < q[i+1].o

\* no character but blanks is in no token: the characters of the tokens are
\* those of the text (where no string has blanks of its own)
Solid(cs) == FoldLeft(LAMBDA a, c : IF c \in Spaces THEN a ELSE a \o c, "", cs)
Covered(q) ==
  LET all == FoldLeft(LAMBDA a, t : a \o t.x, "", [i \in 1..Len(q) - 1 |-> q[i]])
  IN {"\"", BOM} \cap {Text[i] : i \in 1..Len(Text)} = {} => Solid(Chars(all)) = Solid(Text)
Sound == LET d == Ended(After(f, ws)) IN ~d.bad => Shape(d.q) /\ Covered(d.q)
=============================================================================
