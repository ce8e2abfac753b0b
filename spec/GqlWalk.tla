------------------------------- MODULE GqlWalk -------------------------------
(***************************************************************************)
(* Walk(v, node): v.Visit(node) returns a visitor w; if it is nil, the     *)
(* node's parts are skipped; otherwise they are walked with w, in the      *)
(* order of the text, and then w.Visit(nil) is called.                     *)
(*                                                                         *)
(* A behaviour is the sequence of the calls of Visit.  What a visitor      *)
(* returns is chosen: 0 nil, 1 itself, 2 a new visitor (numbered by the    *)
(* call that created it).  A text of the file GQL_IN has a sequence d of   *)
(* choices, or none: then all sequences are explored.  It also has a path  *)
(* p: the walk begins at the part of the tree that the path leads to.      *)
(***************************************************************************)
EXTENDS GqlTree, Json, IOUtils

Texts == ndJsonDeserialize(IOEnv.GQL_IN)

VARIABLES i,      \* the text
          st,     \* the stack: [w: visitor, q: parts still to walk]
          dec,    \* choices made
          ev      \* calls: <<visitor, kind, first token, last token>>
vars == <<i, st, dec, ev>>

\* the part of v that the path leads to; a path that leads nowhere ends there
Part(v, path) == FoldLeft(LAMBDA x, j : LET ch == Children(x)
                                        IN IF Len(ch) = 0 THEN x ELSE ch[1 + (j % Len(ch))], v, path)
Root(n) == LET z == Parse(Texts[n].c)
           IN IF ~z.err /\ Accepted(z.c) THEN <<Part(Tree(z.c), Texts[n].p)>> ELSE <<>>
Init == /\ i \in 1..Len(Texts)
        /\ st = <<[w |-> 0, q |-> Root(i)]>>
        /\ dec = <<>> /\ ev = <<>>

Answers == LET d == Texts[i].d
           IN IF Len(d) = 0 THEN {0, 1, 2} ELSE {d[1 + (Len(dec) % Len(d))]}
Enter == LET fr == Top(st) node == Head(fr.q) rest == Swap(st, [fr EXCEPT !.q = Tail(@)])
         IN /\ fr.q # <<>>
            /\ \E c \in Answers :
                 /\ dec' = Append(dec, c)
                 /\ ev' = Append(ev, <<fr.w, node.k, node.f, node.t>>)
                 /\ st' = IF c = 0 THEN rest
                          ELSE Push(rest, [w |-> IF c = 1 THEN fr.w ELSE Len(ev) + 1, q |-> Children(node)])
            /\ i' = i
Leave == /\ Len(st) > 1 /\ Top(st).q = <<>>
         /\ ev' = Append(ev, <<Top(st).w, "nil", 0, 0>>)
         /\ st' = Pop(st)
         /\ UNCHANGED <<i, dec>>
Next == Enter \/ Leave
Done == Len(st) = 1 /\ st[1].q = <<>>

\* every visitor that was returned is told the end; no node is visited twice
\* by the same kind at the same place; a node is visited within its parent
Calls(P(_)) == {n \in 1..Len(ev) : P(ev[n])}
IsNil(e) == e[2] = "nil"
Entered(e) == e[2] # "nil"
Paired == Cardinality(Calls(IsNil)) + Len(st) - 1 = Cardinality({n \in 1..Len(dec) : dec[n] # 0})
Once == \A m, n \in Calls(Entered) : m < n => ev[m] # ev[n] /\ ev[m][3] <= ev[n][3]
Show == Done => PrintT(ToJson([i |-> i, d |-> dec, e |-> ev]))
=============================================================================
