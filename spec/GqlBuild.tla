------------------------------ MODULE GqlBuild ------------------------------
(***************************************************************************)
(* Statements that a caller builds or changes.  A tree's fields are open:  *)
(* a caller may join conditions, replace operands, add and remove clauses, *)
(* variables, elements, and change values.  What Format, CheckType and     *)
(* Walk make of the tree is a matter of its fields alone, however it came  *)
(* about: Words, Judge and Pre.  The edits are those that the language can *)
(* express (Expressible): a condition that becomes an operand is put in    *)
(* parentheses, an element of an array is replaced by one of its kind.     *)
(*                                                                         *)
(* An edit is [o: what, p: the part, x: with what].  Edits are chosen from *)
(* all that apply (Pick), or read from a script.  GQL_BUILD has the        *)
(* statements to begin with, GQL_FRAG the operands to build with.          *)
(***************************************************************************)
EXTENDS GqlFormat, GqlTree, GqlTypes, Json, IOUtils

Scripts  == ndJsonDeserialize(IOEnv.GQL_BUILD)  \* c: statement, e: edits
FragText == ndJsonDeserialize(IOEnv.GQL_FRAG)   \* c: "when" and an operand
MaxEdits == atoi(IOEnv.GQL_EDITS)

Dict == [si |-> "Int", sf |-> "Float", ss |-> "String", sb |-> "Boolean",
         ai |-> "ArrayInt", af |-> "ArrayFloat", as |-> "ArrayString", bad |-> "Other"]

Read1(x) == LET z == Parse(x.c)
            IN IF Assert(~z.err /\ Accepted(z.c), x.c) THEN Tree(z.c) ELSE None
Frags == FoldLeft(LAMBDA a, x : Append(a, Read1(x).w), <<>>, FragText)
Frag(x) == Frags[1 + (x % Len(Frags))]

VARIABLES h,     \* the statement and its script
          n,     \* edits of the script considered
          t,     \* the tree
          es     \* the edits made
vars == <<h, n, t, es>>

----------------------------------------------------------------------------
(* places for expressions in a node                                         *)
Slots(v) ==
  CASE v.k = "sel" -> v.props
    [] v.k = "range" -> <<v.lo, v.hi>>
    [] v.k = "paren" -> <<v.e>>
    [] v.k = "bin" -> <<v.a, v.b>>
    [] v.k \in {"arr","multi","collection"} -> v.items
    [] v.k = "trigger" -> [i \in 1..Len(v.vars) |-> v.vars[i].v] \o <<v.w>>
                          \o Given(v.rc) \o Given(v.ri) \o Given(v.ra)
    [] OTHER -> <<>>
PutSlot(v, i, x) ==
  CASE v.k = "sel" -> [v EXCEPT !.props[i] = x]
    [] v.k = "range" -> IF i = 1 THEN [v EXCEPT !.lo = x] ELSE [v EXCEPT !.hi = x]
    [] v.k = "paren" -> [v EXCEPT !.e = x]
    [] v.k = "bin" -> IF i = 1 THEN [v EXCEPT !.a = x] ELSE [v EXCEPT !.b = x]
    [] v.k \in {"arr","multi","collection"} -> [v EXCEPT !.items[i] = x]
    [] v.k = "trigger" ->
         LET m == Len(v.vars)
             r == i - m - 1 - (IF v.rc = None THEN 0 ELSE 1)
         IN CASE i <= m -> [v EXCEPT !.vars[i].v = x]
              [] i = m + 1 -> [v EXCEPT !.w = x]
              [] r = 0 -> [v EXCEPT !.rc = x]
              [] r = 1 /\ v.ri # None -> [v EXCEPT !.ri = x]
              [] OTHER -> [v EXCEPT !.ra = x]

\* the part that a path leads to, and the tree with x there
RECURSIVE At1(_, _), Put(_, _, _), Places(_), Path(_, _)
At1(v, p) == IF p = <<>> THEN v ELSE At1(Slots(v)[Head(p)], Tail(p))
Put(v, p, x) == IF p = <<>> THEN x
                ELSE PutSlot(v, Head(p), Put(Slots(v)[Head(p)], Tail(p), x))
Places(v) == {<<>>} \cup UNION {{<<i>> \o q : q \in Places(Slots(v)[i])} : i \in 1..Len(Slots(v))}
\* numbers of a script as a path
Path(v, p) == IF p = <<>> \/ Slots(v) = <<>> THEN <<>>
              ELSE LET i == 1 + (Head(p) % Len(Slots(v)))
                   IN <<i>> \o Path(Slots(v)[i], Tail(p))

----------------------------------------------------------------------------
(* the edits                                                                *)
Bin(a, op, b) == [k |-> "bin", f |-> 0, t |-> 0, op |-> op, on |-> 0, a |-> a, b |-> b]
Par(e) == [k |-> "paren", f |-> 0, t |-> 0, e |-> e]
Operators == <<"OR","EQL","MUL","AND","LSS","LEQ","GTR","GEQ","LEQL","LNEQ","NOT_EQ","IN","NOT_IN",
   "INTERSECTS","NOT_INTERSECTS","NEARBY","NOT_NEARBY","ADD","SUB","QUO","REM">>
\* of several edits, not every one is made with every operator
NOps == IF MaxEdits = 1 THEN Len(Operators) ELSE 3
Op(x) == Operators[1 + (x % NOps)]
Names == <<"x", "X", "n_9", "wert_1">>
Name(x) == Names[1 + (x % Len(Names))]
Named(v, nm) == \E i \in 1..Len(v.vars) : v.vars[i].n = nm
Without(q, i) == SubSeq(q, 1, i - 1) \o SubSeq(q, i + 1, Len(q))
\* references stay out of variables, and what may hold them
RECURSIVE Refers(_)
Refers(v) == v.k = "ref" \/ \E i \in 1..Len(Children(v)) : Refers(Children(v)[i])

IsOperand(v) == v.k \notin {"bin","none"}
\* x may stand where y stands in v
Fits(v, i, x) ==
  LET y == Slots(v)[i]
  IN CASE v.k \in {"bin","paren"} -> IsOperand(x)
       [] v.k = "trigger" -> IF i <= Len(v.vars) THEN ~Refers(x) /\ IsOperand(x)
                             ELSE IF i = Len(v.vars) + 1 THEN IsOperand(x) ELSE x.k = y.k
       [] OTHER -> /\ x.k = y.k /\ x.k # "sel" /\ x.k \notin Cal
                   /\ x.k = "range" => x.lo.k \notin Cal
\* variables do not refer to others, wherever in them the part is
InVar(p) == p # <<>> /\ Head(p) <= Len(t.vars)
Replace(p, x) ==
  IF p = <<>> THEN None
  ELSE LET up == SubSeq(p, 1, Len(p) - 1)
       IN IF Fits(At1(t, up), p[Len(p)], x) /\ (InVar(p) => ~Refers(x)) THEN Put(t, p, x) ELSE None

OtherUnit(u) == CASE u = "Kph" -> "Mph" [] u = "Mph" -> "Kph" [] u = "C" -> "F" [] u = "F" -> "C"
                  [] u = "Km" -> "M" [] u = "M" -> "Km" [] u = "Bar" -> "Psi" [] u = "Psi" -> "Bar"
                  [] u = "AM" -> "PM" [] u = "PM" -> "AM" [] OTHER -> ""
Ints == <<"7", "0", "9223372036854775807", "12">>
Floats == <<"0.25", "-3.75", "12", "100.5">>
Amounts == <<"40", "2.5", "7", "0.125">>
Spans == <<"1500000000", "5400000000000", "90000000000", "1">>    \* nanoseconds
Strings == <<"", "s t", "q", "x">>
\* the value of v is another
Change(v, x) ==
  CASE v.k = "int" -> [v EXCEPT !.v = Ints[1 + (x % 4)]]
    [] v.k = "string" -> [v EXCEPT !.v = Strings[1 + (x % 4)]]
    [] v.k = "bool" -> [v EXCEPT !.v = ~@]
    [] v.k = "float" -> [v EXCEPT !.v = Floats[1 + (x % 4)]]
    [] v.k = "pct" -> [v EXCEPT !.v = Amounts[1 + (x % 4)]]
    [] v.k = "dur" -> [v EXCEPT !.v = Spans[1 + (x % 4)]]
    [] v.k \in {"press","dist","speed","temp"} ->
         IF x % 2 = 0 THEN [v EXCEPT !.u = OtherUnit(@)] ELSE [v EXCEPT !.v = Amounts[1 + (x % 4)]]
    [] v.k = "time" -> IF v.u = "" THEN [v EXCEPT !.s = x % 60] ELSE [v EXCEPT !.u = OtherUnit(@)]
    [] v.k = "date" -> [v EXCEPT !.y = 2022 + (x % 100), !.d = 1 + (x % 28)]
    [] v.k = "weekday" -> [v EXCEPT !.v = x % 7]
    [] v.k = "month" -> [v EXCEPT !.v = 1 + (x % 12)]
    [] v.k = "sel" -> IF v.args = {} \/ x % 2 = 0
                      THEN [v EXCEPT !.id = <<"si", "renamed", "ss">>[1 + (x % 3)]]
                      ELSE [v EXCEPT !.wc = ~@]
    [] v.k = "ref" -> [v EXCEPT !.v = Name(x)]
    [] v.k = "point" -> IF v.rad # None THEN [v EXCEPT !.rad = None] ELSE [v EXCEPT !.xy = <<@[2], @[1]>>]
    [] v.k = "line" -> IF v.rad # None THEN [v EXCEPT !.rad = None]
                       ELSE [v EXCEPT !.pts = Append(@, <<"0.5", "-12">>)]
    [] v.k = "polygon" -> IF x % 2 = 0 THEN [v EXCEPT !.rings = Append(@, <<<<"0.5", "-12">>, <<"3", "4">>>>)]
                          ELSE [v EXCEPT !.rings[1] = Append(@, <<"-0.5", "12">>)]
    [] v.k = "bin" -> LET q == SelectSeq(Operators, LAMBDA o : Prec(o) = Prec(v.op))
                      IN [v EXCEPT !.op = q[1 + (x % Len(q))]]
    [] OTHER -> None
\* one element or argument more, or less; a calendar list has two at least
More(v, x) ==
  CASE v.k \in {"arr","multi","collection"} -> [v EXCEPT !.items = Append(@, v.items[1 + (x % Len(v.items))])]
    [] v.k = "sel" -> IF v.args = {} THEN None ELSE [v EXCEPT !.args = @ \cup {<<"zz", "d 1", "A">>[1 + (x % 3)]}]
    [] v.k = "point" -> IF Frag(x).k = "dist" THEN [v EXCEPT !.rad = Frag(x)] ELSE None
    [] v.k = "line" -> IF Frag(x).k = "dist" THEN [v EXCEPT !.rad = Frag(x)] ELSE None
    [] OTHER -> None
Less(v, x) ==
  CASE v.k \in {"arr","multi","collection"} ->
         IF Len(v.items) < (IF v.k = "arr" /\ v.kind \in Cal THEN 3 ELSE 2) THEN None ELSE [v EXCEPT !.items = Without(@, 1 + (x % Len(@)))]
    [] v.k = "sel" -> IF v.props = <<>> THEN None ELSE [v EXCEPT !.props = <<>>]
    [] v.k = "line" -> IF Len(v.pts) < 3 THEN None ELSE [v EXCEPT !.pts = Without(@, 1 + (x % Len(@)))]
    [] v.k = "polygon" -> IF Len(v.rings) < 2 THEN None ELSE [v EXCEPT !.rings = Without(@, 1 + (x % Len(@)))]
    [] OTHER -> None
Turned(v) == CASE v.k \in {"arr","multi","collection"} -> [v EXCEPT !.items = Reverse(@)]
               [] v.k = "bin" -> IF IsOperand(v.a) /\ IsOperand(v.b) THEN [v EXCEPT !.a = v.b, !.b = v.a] ELSE None
               [] v.k = "trigger" -> [v EXCEPT !.vars = Reverse(@)]
               [] v.k = "line" -> [v EXCEPT !.pts = Reverse(@)]
               [] OTHER -> None
\* a colon after v would begin properties of the last selector in v; an array
\* that goes on after such an element, if it has properties, has no text
RECURSIVE Takes(_), Clean(_)
Takes(v) == CASE v.k = "sel" -> v.props = <<>> \/ Takes(v.props[Len(v.props)])
              [] v.k = "range" -> Takes(v.hi)
              [] OTHER -> FALSE
Clean(v) == /\ v.k = "arr" => \A i \in 1..Len(v.items) - 1 : ~(Open(v.items[i]) /\ Takes(v.items[i]))
            /\ \A i \in 1..Len(Children(v)) : Clean(Children(v)[i])
\* both operands, or both bounds, are the same node
Both(v) == CASE v.k = "range" -> [v EXCEPT !.hi = v.lo]
             [] v.k = "bin" -> IF IsOperand(v.a) THEN [v EXCEPT !.b = v.a] ELSE None
             [] OTHER -> None
At2(p, y) == IF y = None THEN None ELSE Put(t, p, y)

\* the tree after an edit, or None
Do(e) ==
  LET v == At1(t, e.p) x == e.x
  IN CASE e.o = "put"    -> Replace(e.p, Frag(x))
       [] e.o = "change" -> IF InVar(e.p) /\ v.k = "ref" THEN None ELSE At2(e.p, Change(v, x))
       [] e.o = "more"   -> At2(e.p, More(v, x))
       [] e.o = "less"   -> At2(e.p, Less(v, x))
       [] e.o = "turn"   -> At2(e.p, Turned(v))
       [] e.o = "same"   -> At2(e.p, Both(v))
       [] e.o = "wrap"   -> IF e.p = <<>> THEN None ELSE Replace(e.p, Par(v))
       [] e.o = "join"   -> IF e.p # <<>> THEN None ELSE [t EXCEPT !.w = Bin(Par(t.w), Op(x), Frag(x \div NOps))]
       [] e.o = "before" -> IF e.p # <<>> THEN None ELSE [t EXCEPT !.w = Bin(Frag(x \div NOps), Op(x), Par(t.w))]
       [] e.o = "twice"  -> IF e.p # <<>> THEN None ELSE [t EXCEPT !.w = Bin(Par(t.w), Op(x), Par(t.w))]
       [] e.o = "count"  -> IF e.p # <<>> THEN None
                            ELSE IF x = 0 THEN IF t.ri # None THEN None ELSE [t EXCEPT !.rc = None]
                            ELSE IF Frag(x).k = "int" THEN [t EXCEPT !.rc = Frag(x)] ELSE None
       [] e.o = "every"  -> IF e.p # <<>> THEN None
                            ELSE IF x = 0 THEN [t EXCEPT !.ri = None]
                            ELSE IF Frag(x).k = "dur" /\ t.rc # None THEN [t EXCEPT !.ri = Frag(x)] ELSE None
       [] e.o = "after"  -> IF e.p # <<>> THEN None
                            ELSE IF x = 0 THEN [t EXCEPT !.ra = None]
                            ELSE IF Frag(x).k = "dur" THEN [t EXCEPT !.ra = Frag(x)] ELSE None
       [] e.o = "setvar" -> IF e.p # <<>> \/ Named(t, Name(x)) \/ Refers(Frag(x)) \/ ~IsOperand(Frag(x)) THEN None
                            ELSE [t EXCEPT !.vars = Append(@, [n |-> Name(x), f |-> 0, tp |-> 0, v |-> Frag(x)])]
       [] e.o = "unset"  -> IF e.p # <<>> \/ t.vars = <<>> THEN None
                            ELSE [t EXCEPT !.vars = Without(@, 1 + (x % Len(@)))]
       [] e.o = "rename" -> IF e.p # <<>> \/ t.vars = <<>> \/ Named(t, Name(x)) THEN None
                            ELSE [t EXCEPT !.vars[1 + (x % Len(t.vars))].n = Name(x)]
       [] OTHER -> None

----------------------------------------------------------------------------
Init == /\ h \in 1..Len(Scripts)
        /\ n = 0 /\ es = <<>>
        /\ t = Read1(Scripts[h])

Does(e) == LET y == Do(e) IN IF y # None /\ Clean(y) THEN y ELSE None
Make(e) == /\ \E y \in {Does(e)} : y # None /\ t' = y
           /\ es' = Append(es, e)
E(o, p, x) == [o |-> o, p |-> p, x |-> x]
Everywhere == {"put","change","more","less","turn","same","wrap"}
AtTheTop == {"join","before","twice","count","every","after","setvar","unset","rename"}
Upto(o) == CASE o \in {"put","count","every","after"} -> Len(Frags) - 1
             [] o \in {"change","more"} -> 11 [] o = "less" -> 1
             [] o \in {"turn","same","wrap"} -> 0
             [] o \in {"join","before"} -> NOps * Len(Frags) - 1 [] o = "twice" -> NOps - 1
             [] o = "setvar" -> 2 * Len(Frags) - 1
             [] OTHER -> 3
\* several numbers may mean the same edit
Pick == /\ Scripts[h].e = <<>> /\ Len(es) < MaxEdits /\ n' = n
        /\ \/ \E o \in Everywhere : \E p \in Places(t) : \E x \in 0..Upto(o) : Make(E(o, p, x))
           \/ \E o \in AtTheTop : \E x \in 0..Upto(o) : Make(E(o, <<>>, x))
Follow == /\ n < Len(Scripts[h].e) /\ n' = n + 1
          /\ LET s == Scripts[h].e[n']
                 e == E(s.o, IF s.o \in AtTheTop THEN <<>> ELSE Path(t, s.p), s.x)
             IN IF Does(e) = None THEN UNCHANGED <<t, es>> ELSE Make(e)
Next == h' = h /\ (Pick \/ Follow)
Same1 == <<h, n, t, Len(es)>>    \* of edits that come to the same one is enough

----------------------------------------------------------------------------
Expressible == Faithful(t)
RECURSIVE Pre(_)
\* the nodes in the order of a walk; "." ends the parts of one
Pre(v) == <<v.k>> \o FoldLeft(LAMBDA a, x : a \o Pre(x) , <<>>, Children(v)) \o <<".">>
Done == Scripts[h].e = <<>> \/ n = Len(Scripts[h].e)
Show == Done => PrintT(ToJson([h |-> h, es |-> es, t |-> t, w |-> Words(t), bad |-> JudgeStatement(t, Dict).bad,
                       pre |-> Pre(t)]))
=============================================================================
