------------------------------ MODULE GqlFormat ------------------------------
(***************************************************************************)
(* The canonical text of a syntax tree, as a sequence of words.  Format    *)
(* chooses the blanks between them, and how to spell a number.             *)
(* A word "#n" is a duration of n nanoseconds.                             *)
(***************************************************************************)
EXTENDS GqlParse

Num(v) == IF At(v, 1) = "-" THEN <<"-", From(v, 2)>> ELSE <<v>>
Abs(v) == IF At(v, 1) = "-" THEN From(v, 2) ELSE v
\* a value with a unit; one too large for an integer literal
Val(v) == Num(IF DotAt(v) = 0 /\ ~FitsInt(Abs(v)) THEN v \o ".0" ELSE v)
Flt(v) == Num(IF DotAt(v) = 0 THEN v \o ".0" ELSE v)
Two(n) == IF n < 10 THEN "0" \o ToString(n) ELSE ToString(n)

RECURSIVE Sep(_, _)
Sep(q, w) == IF Len(q) = 0 THEN <<>> ELSE IF Len(q) = 1 THEN q[1]
             ELSE q[1] \o <<w>> \o Sep(Tail(q), w)

OpWord(t) ==
  CASE t = "OR" -> "or" [] t = "AND" -> "and" [] t = "LSS" -> "<" [] t = "LEQ" -> "<="
    [] t = "GTR" -> ">" [] t = "GEQ" -> ">=" [] t = "EQL" -> "eq" [] t = "LEQL" -> "=="
    [] t = "LNEQ" -> "!=" [] t = "NOT_EQ" -> "not eq" [] t = "IN" -> "in"
    [] t = "NOT_IN" -> "not in" [] t = "INTERSECTS" -> "intersects"
    [] t = "NOT_INTERSECTS" -> "not intersects" [] t = "NEARBY" -> "nearby"
    [] t = "NOT_NEARBY" -> "not nearby" [] t = "ADD" -> "+" [] t = "SUB" -> "-"
    [] t = "MUL" -> "*" [] t = "QUO" -> "/" [] t = "REM" -> "rem"
Word1(kind) ==
  CASE kind = "MULTIPOINT" -> "multipoint" [] kind = "MULTILINE" -> "multiline"
    [] kind = "MULTIPOLYGON" -> "multipolygon" [] kind = "COLLECTION" -> "collection"
DayWords == <<"Sun","Mon","Tue","Wed","Thu","Fri","Sat">>
MonthWords == <<"Jan","Feb","Mar","Apr","May","Jun","Jul","Aug","Sep","Oct","Nov","Dec">>

Cal == {"date","time","weekday","month"}
\* a date, time, weekday or month without its brackets
Bare(v) ==
  CASE v.k = "date" -> <<Two(v.y), "-", Two(v.m), "-", Two(v.d)>>
    [] v.k = "time" -> <<IF v.u = "" THEN Two(v.h) ELSE ToString(v.h), ":", Two(v.m)>>
                       \o (IF v.s > 0 THEN <<":", Two(v.s)>> ELSE <<>>)
                       \o (IF v.u = "" THEN <<>> ELSE <<v.u>>)
    [] v.k = "weekday" -> <<DayWords[v.v + 1]>>
    [] v.k = "month" -> <<MonthWords[v.v]>>

Pair(p) == <<"[">> \o Val(p[1]) \o <<",">> \o Val(p[2]) \o <<"]">>
PtList(q) == <<"[">> \o Sep([i \in 1..Len(q) |-> Pair(q[i])], ",") \o <<"]">>

\* a comma after the properties of a selector would continue them
RECURSIVE Open(_)
Open(v) == CASE v.k = "sel" -> v.props # <<>> [] v.k = "range" -> Open(v.hi)
             [] OTHER -> FALSE
RECURSIVE Words(_), Elements(_)
Elements(q) == IF Len(q) = 0 THEN <<>> ELSE IF Len(q) = 1 THEN Words(q[1])
               ELSE Words(q[1]) \o <<IF Open(q[1]) THEN ":" ELSE ",">> \o Elements(Tail(q))
Opt(v, w) == IF v = None THEN <<>> ELSE <<w>> \o Words(v)
All(q) == Sep([i \in 1..Len(q) |-> Words(q[i])], ",")
Words(v) ==
  CASE v.k = "int" -> Num(v.v)
    [] v.k = "float" -> Flt(v.v)
    [] v.k = "pct" -> Val(v.v) \o <<"%">>
    [] v.k \in {"press","dist","speed"} -> Val(v.v) \o <<v.u>>
    [] v.k = "temp" -> (IF v.vec = "" THEN <<>> ELSE <<v.vec>>) \o Val(v.v) \o <<v.u>>
    [] v.k = "dur" -> <<"#" \o v.v>>
    [] v.k = "string" -> <<"\"" \o v.v \o "\"">>
    [] v.k = "bool" -> <<IF v.v THEN "true" ELSE "false">>
    [] v.k = "wild" -> <<"*">>
    [] v.k = "ref" -> <<"@", v.v>>
    [] v.k = "sel" ->
         <<v.id>>
         \o (IF v.args = {} THEN <<>>
             ELSE LET q == SetToSeq(v.args)
                      a == Sep([i \in 1..Len(q) |-> <<"\"" \o q[i] \o "\"">>], ",")
                  IN <<"{">> \o (IF v.wc THEN <<"*", ",">> ELSE <<>>) \o a \o <<"}">>)
         \o (IF v.props = <<>> THEN <<>> ELSE <<":">> \o All(v.props))
    [] v.k = "arr" ->
         IF v.kind \in Cal
         THEN <<v.kind, "[">> \o Sep([i \in 1..Len(v.items) |-> Bare(v.items[i])], ",") \o <<"]">>
         ELSE <<"[">> \o Elements(v.items) \o <<"]">>
    [] v.k = "range" ->
         IF v.lo.k \in Cal /\ v.lo.k = v.hi.k
         THEN <<v.lo.k, "[">> \o Bare(v.lo) \o <<"..">> \o Bare(v.hi) \o <<"]">>
         ELSE Words(v.lo) \o <<"..">> \o Words(v.hi)
    [] v.k = "bin" -> Words(v.a) \o <<OpWord(v.op)>> \o Words(v.b)
    [] v.k = "paren" -> <<"(">> \o Words(v.e) \o <<")">>
    [] v.k \in Cal -> <<v.k, "[">> \o Bare(v) \o <<"]">>
    [] v.k = "point" -> <<"point">> \o Pair(v.xy) \o Opt(v.rad, ":")
    [] v.k = "line" -> <<"line">> \o PtList(v.pts) \o Opt(v.rad, ":")
    [] v.k = "polygon" -> <<"polygon", "[">>
                          \o Sep([i \in 1..Len(v.rings) |-> PtList(v.rings[i])], ",") \o <<"]">>
    [] v.k = "multi" -> <<Word1(v.kind), "[">> \o All(v.items) \o <<"]">>
    [] v.k = "collection" -> <<"collection", "[">> \o All(v.items) \o <<"]">>
    [] v.k = "trigger" ->
         <<"TRIGGER">>
         \o (IF v.vars = <<>> THEN <<>>
             ELSE FoldLeft(LAMBDA a, x : a \o <<x.n, "=">> \o Words(x.v) \o <<";">>, <<"SET">>, v.vars))
         \o <<"WHEN">> \o Words(v.w)
         \o (IF v.rc = None /\ v.ri = None THEN <<>>
             ELSE <<"REPEAT">> \o (IF v.rc = None THEN <<>> ELSE Words(v.rc)) \o Opt(v.ri, "every"))
         \o (IF v.ra = None THEN <<>> ELSE <<"RESET", "after">> \o Words(v.ra))

----------------------------------------------------------------------------
(* nanoseconds as seconds                                                   *)
Seconds(n) == LET p == IF Len(n) <= 9 THEN Zeros(10 - Len(n)) \o n ELSE n
              IN SubSeq(p, 1, Len(p) - 9) \o "." \o From(p, Len(p) - 8) \o "s"
Render(w) == IF At(w, 1) = "#" THEN Seconds(From(w, 2)) ELSE w
Text(v) == LET q == Words(v)
           IN FoldLeft(LAMBDA a, w : a \o Chars(Render(w) \o " "), <<>>, q)

----------------------------------------------------------------------------
(* the same tree, wherever it stands                                        *)
RECURSIVE Same(_, _)
SameAll(p, q) == Len(p) = Len(q) /\ \A i \in 1..Len(p) : Same(p[i], q[i])
Same(a, b) ==
  /\ a.k = b.k
  /\ CASE a.k \in {"int","float","pct","dur","string","bool","ref","weekday","month"} -> a.v = b.v
       [] a.k \in {"press","dist","speed"} -> a.v = b.v /\ a.u = b.u
       [] a.k = "temp" -> a.v = b.v /\ a.u = b.u /\ a.vec = b.vec
       [] a.k \in {"wild","none"} -> TRUE
       [] a.k = "sel" -> a.id = b.id /\ a.args = b.args /\ a.wc = b.wc /\ SameAll(a.props, b.props)
       [] a.k = "arr" -> a.kind = b.kind /\ SameAll(a.items, b.items)
       [] a.k = "range" -> Same(a.lo, b.lo) /\ Same(a.hi, b.hi)
       [] a.k = "bin" -> a.op = b.op /\ Same(a.a, b.a) /\ Same(a.b, b.b)
       [] a.k = "paren" -> Same(a.e, b.e)
       [] a.k = "date" -> <<a.y, a.m, a.d>> = <<b.y, b.m, b.d>>
       [] a.k = "time" -> <<a.h, a.m, a.s, a.u>> = <<b.h, b.m, b.s, b.u>>
       [] a.k = "point" -> a.xy = b.xy /\ Same(a.rad, b.rad)
       [] a.k = "line" -> a.pts = b.pts /\ Same(a.rad, b.rad)
       [] a.k = "polygon" -> a.rings = b.rings
       [] a.k \in {"multi","collection"} -> a.kind = b.kind /\ SameAll(a.items, b.items)
       [] a.k = "trigger" ->
            /\ Len(a.vars) = Len(b.vars)
            /\ \A i \in 1..Len(a.vars) : a.vars[i].n = b.vars[i].n /\ Same(a.vars[i].v, b.vars[i].v)
            /\ Same(a.w, b.w) /\ Same(a.rc, b.rc) /\ Same(a.ri, b.ri) /\ Same(a.ra, b.ra)

\* the canonical text is a statement, and it is this one
Faithful(v) == LET z == Parse(Text(v)) IN ~z.err /\ Accepted(z.c) /\ Same(Tree(z.c), v)
=============================================================================
