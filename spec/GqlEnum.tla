------------------------------- MODULE GqlEnum -------------------------------
(***************************************************************************)
(* All texts of a bounded shape.  A family of texts is a prefix followed   *)
(* by at most depth words of a small vocabulary, separated by blanks; the  *)
(* families stand in the file named by GQL_ENUM.  A state is a text read   *)
(* so far, as the configuration of the lexer, of the token former and of   *)
(* the parser; a step reads one more word.  A state whose configuration    *)
(* is viable is extended by every word, so that every viable text of the   *)
(* shape is visited, and every text that is one word beyond one.           *)
(* Each state is printed with the outcome of ending the text there.        *)
(***************************************************************************)
EXTENDS GqlParse, Json, IOUtils

Families == ndJsonDeserialize(IOEnv.GQL_ENUM)

VARIABLES f,     \* the family
          ws,    \* the words read after the prefix
          z      \* the configuration

\* raw tokens -> tokens -> parser
FeedToks(c, n, toks) ==
  FoldLeft(LAMBDA a, i : Step(a, toks[i], n + i), c, [i \in 1..Len(toks) |-> i])
Drain(y) ==
  LET m == FoldLeft(MergeStep, [p |-> y.p, out |-> <<>>], y.lx.out)
  IN [lx |-> [y.lx EXCEPT !.out = <<>>], p |-> m.p, n |-> y.n + Len(m.out),
      o |-> y.o \o [i \in 1..Len(m.out) |-> <<m.out[i].o, m.out[i].e, m.out[i].t>>],
      c |-> FeedToks(y.c, y.n, m.out)]
Read(y, chars) == Drain([y EXCEPT !.lx = FoldLeft(LexStep, @, chars)])
Finished(y)    == Drain([y EXCEPT !.lx = LexEnd(@)])

Fresh == [lx |-> LexInit, p |-> NoRaw, n |-> 0, o |-> <<>>, c |-> Start]
Word(w) == Chars(w \o " ")

Init == /\ f \in 1..Len(Families)
        /\ ws = <<>>
        /\ z = FoldLeft(Read, Fresh, [i \in 1..Len(Families[f].prefix) |-> Word(Families[f].prefix[i])])

Next == /\ Len(ws) < Families[f].depth
        /\ Viable(z.c) /\ ~z.lx.err
        /\ \E w \in 1..Len(Families[f].words) :
              /\ ws' = Append(ws, w)
              /\ z' = Read(z, Word(Families[f].words[w]))
        /\ f' = f

\* the outcome of the text that ends here
Ended == LET y == Finished(z)
         IN [f |-> f, w |-> ws, o |-> y.o, d |-> ~Viable(z.c),
             r |-> [lex |-> y.lx.err, ok |-> ~y.lx.err /\ Accepted(y.c), lo |-> y.c.lo, hi |-> y.c.hi,
                    tree |-> IF ~y.lx.err /\ Accepted(y.c) THEN Tree(y.c) ELSE None]]
Show == PrintT(ToJson(Ended))

----------------------------------------------------------------------------
(* what the specification itself has to satisfy                             *)

\* no token is dropped: the leaves of a tree, its operators and brackets
\* lie within the text, in order, and the whole text is one statement
RECURSIVE InOrder(_)
Ordered(q) == \A i \in 1..Len(q) - 1 : q[i].t < q[i+1].f
Nested(v, q) == \A i \in 1..Len(q) : v.f <= q[i].f /\ q[i].t <= v.t
Parts(v) ==
  CASE v.k = "bin" -> <<v.a, v.b>> [] v.k = "paren" -> <<v.e>> [] v.k = "range" -> <<v.lo, v.hi>>
    [] v.k = "arr" -> v.items [] v.k = "sel" -> v.props [] v.k \in {"multi","collection"} -> v.items
    [] v.k \in {"point","line"} -> IF v.rad = None THEN <<>> ELSE <<v.rad>>
    [] v.k = "trigger" ->
        [i \in 1..Len(v.vars) |-> v.vars[i].v] \o <<v.w>>
        \o (IF v.rc = None THEN <<>> ELSE <<v.rc>>) \o (IF v.ri = None THEN <<>> ELSE <<v.ri>>)
        \o (IF v.ra = None THEN <<>> ELSE <<v.ra>>)
    [] OTHER -> <<>>
InOrder(v) == LET q == Parts(v)
              IN v.f <= v.t /\ Ordered(q) /\ Nested(v, q) /\ \A i \in 1..Len(q) : InOrder(q[i])

\* precedence: an operand of an operator that is an operator itself binds
\* tighter; on the left it may bind equally (left associativity)
RECURSIVE Bound(_)
Bound(v) == LET q == Parts(v)
            IN /\ v.k = "bin" =>
                    /\ v.a.k = "bin" => Prec(v.a.op) >= Prec(v.op)
                    /\ v.b.k = "bin" => Prec(v.b.op) > Prec(v.op)
                    /\ v.a.t < v.on /\ v.on < v.b.f
               /\ \A i \in 1..Len(q) : Bound(q[i])

WellFormed == LET y == Finished(z)
              IN ~y.lx.err /\ Accepted(y.c) =>
                   LET t == Tree(y.c)
                   IN InOrder(t) /\ Bound(t) /\ t.f = 1 /\ t.t = y.n - 1
=============================================================================
