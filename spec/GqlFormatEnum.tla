---------------------------- MODULE GqlFormatEnum ----------------------------
(***************************************************************************)
(* The canonical text of every enumerated statement says the same.         *)
(***************************************************************************)
EXTENDS GqlEnum, GqlFormat

RoundTrip == LET y == Finished(z)
             IN ~y.lx.err /\ Accepted(y.c) => Faithful(Tree(y.c))
\* only accepted texts are printed
ShowOk == LET y == Finished(z) IN ~y.lx.err /\ Accepted(y.c) => Show
=============================================================================
