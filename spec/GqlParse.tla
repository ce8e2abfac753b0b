------------------------------ MODULE GqlParse ------------------------------
(***************************************************************************)
(* Tokens to syntax tree: a deterministic pushdown automaton whose frames  *)
(* are the parser's active calls.  Feed(stack, tok) is one transition: the *)
(* frames that end before tok are popped (Ret), and the frame that takes   *)
(* tok either moves on, is finished, pushes a frame, or rejects.           *)
(*                                                                         *)
(* A configuration is [s, lo, hi]: the stack; lo = 0 while the input is    *)
(* viable, else the index of the first token that no continuation can      *)
(* repair, and hi the last token at which a parser that follows the        *)
(* grammar may notice it.                                                  *)
(*                                                                         *)
(* Nodes are records [k: kind, f, t: first and last token, ...]; numbers   *)
(* are canonical digit strings.                                            *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, TLC, GqlNum

INF == 1000000
Rej(lo, hi) == [s |-> <<>>, lo |-> lo, hi |-> hi]
Ok(s)       == [s |-> s, lo |-> 0, hi |-> 0]

Top(s)     == s[Len(s)]
Pop(s)     == SubSeq(s, 1, Len(s) - 1)
Swap(s, f) == Append(Pop(s), f)

None   == [k |-> "none"]
NoTok  == [t |-> "", l |-> "", x |-> "", o |-> 0, e |-> 0, n |-> 0]

----------------------------------------------------------------------------
(* operators                                                               *)
Prec(t) ==
  CASE t = "OR" -> 1
    [] t = "AND" -> 2
    [] t \in {"LSS","LEQ","GTR","GEQ","EQL","LEQL","LNEQ","NOT_EQ","INTERSECTS",
              "NOT_INTERSECTS","IN","NOT_IN","NEARBY","NOT_NEARBY"} -> 3
    [] t \in {"ADD","SUB"} -> 4
    [] t \in {"MUL","QUO","REM"} -> 5
    [] OTHER -> 0

----------------------------------------------------------------------------
(* units                                                                   *)
PctUnits  == {"%","PCT","Pct"}
BarUnits  == {"bar","Bar","BAR"}        PsiUnits == {"Psi","PSI","psi"}
KmUnits   == {"rkm","rKM","Rkm","Km","km"}
MUnits    == {"rm","rM","Rm","M"}
KphUnits  == {"kph","KPH","Kph"}        MphUnits == {"mph","MPH","Mph"}
CUnits    == {"c","C"}                  FUnits   == {"f","F"}
AmUnits   == {"am","Am","AM"}           PmUnits  == {"pm","Pm","PM"}

UnitOf(x) == CASE x \in BarUnits -> "Bar" [] x \in PsiUnits -> "Psi" [] x \in KmUnits -> "Km"
               [] x \in MUnits -> "M" [] x \in KphUnits -> "Kph" [] x \in MphUnits -> "Mph"
               [] x \in CUnits -> "C" [] x \in FUnits -> "F" [] x \in AmUnits -> "AM"
               [] x \in PmUnits -> "PM" [] OTHER -> ""

----------------------------------------------------------------------------
(* frames                                                                  *)
FTrig  == [f |-> "trig", ph |-> "s0", fi |-> 0, vars |-> <<>>, id |-> NoTok, tp |-> 0,
           v |-> None, w |-> None, rc |-> None, ri |-> None, ra |-> None]
FBin(min) == [f |-> "bin", min |-> min, l |-> None, op |-> NoTok]
\* hi: this operand is the upper bound of a range
FUn(hi)   == [f |-> "un", ph |-> "s", sg |-> "", sn |-> 0, hi |-> hi, v |-> None]
FDone(v)  == [f |-> "done", v |-> v]
FNum(k, sg, sn) == [f |-> "num", k |-> k, sg |-> sg, sn |-> sn]
FRef(n)   == [f |-> "ref", n |-> n]
FSel(k)   == [f |-> "sel", ph |-> "s", id |-> k.l, n |-> k.n, args |-> {}, star |-> FALSE,
              wc |-> FALSE, props |-> <<>>]
FArr(n)   == [f |-> "arr", n |-> n, kind |-> "", items |-> <<>>]
FPar(n)   == [f |-> "par", n |-> n, e |-> None]
FGeo(k)   == [f |-> "geo", ph |-> "s", kind |-> k.t, n |-> k.n, path |-> 0, open |-> TRUE,
              c |-> <<>>, y |-> FALSE, neg |-> FALSE, pt |-> <<>>, pts |-> <<>>, rings |-> <<>>,
              v |-> None]
FMul(k)   == [f |-> "mul", ph |-> "s", kind |-> k.t, n |-> k.n, items |-> <<>>]
FCal(k)   == [f |-> "cal", ph |-> "s", kind |-> k.t, n |-> k.n, e |-> 0, c |-> <<>>, u |-> "",
              mode |-> "one", v |-> None, items |-> <<>>]

Push(s, f) == Append(s, f)
Finish(s, v) == Ok(Swap(s, FDone(v)))

----------------------------------------------------------------------------
(* number literals                                                         *)
\* deviation: underscores may separate the digits of a float, not of an integer
NumOk(k) == IF k.t = "INT" THEN ~HasUnderscore(k.x) /\ FitsInt(k.x)
            ELSE UnderscoresOk(k.x) /\ Len(StripL(Plain(IntPart(k.x)))) <= 308
PushNum(s, k, sg, sn) == IF NumOk(k) THEN Ok(Push(s, FNum(k, sg, sn))) ELSE Rej(k.n, k.n)

NegStr(sg, v) == IF sg = "-" THEN "-" \o v ELSE v
First(fr) == IF fr.sg = "" THEN fr.k.n ELSE fr.sn
PlainNum(fr) == [k |-> IF fr.k.t = "INT" THEN "int" ELSE "float", f |-> First(fr), t |-> fr.k.n,
                 v |-> NegStr(fr.sg, Canon(fr.k.x))]

\* the unit token k after the number of fr: a node, or None if k is no unit,
\* or "bad" if k makes the number wrong
UnitNode(fr, k) ==
  LET x == IF k.t = "SELECTOR" \/ (k.t = "ILLEGAL" /\ k.x = "%") THEN k.x ELSE ""
      v == Canon(fr.k.x)
      neg == fr.sg = "-"
      node(kind) == [k |-> kind, f |-> First(fr), t |-> k.n, v |-> v, u |-> UnitOf(x)]
      bad == [k |-> "bad"]
  IN CASE x = "" -> None
       [] x \in PctUnits -> IF neg THEN bad ELSE [k |-> "pct", f |-> First(fr), t |-> k.n, v |-> v]
       [] x \in BarUnits \cup PsiUnits -> [node("press") EXCEPT !.v = NegStr(fr.sg, v)]
       [] x \in KmUnits \cup MUnits -> IF neg THEN bad ELSE node("dist")
       [] x \in KphUnits \cup MphUnits -> IF neg THEN bad ELSE node("speed")
       [] x \in CUnits \cup FUnits -> node("temp") @@ [vec |-> fr.sg]
       [] At(k.l, 1) \in {"h","m","s"} ->
            LET d == IF HasUnderscore(fr.k.x) THEN "" ELSE Duration(fr.k.x, k.l)
            IN IF neg \/ d = "" THEN bad
               ELSE [k |-> "dur", f |-> First(fr), t |-> k.n, v |-> d]
       [] OTHER -> None

----------------------------------------------------------------------------
(* kinds of array elements                                                 *)
ItemKinds == {"sel","dur","speed","press","temp","dist","pct","int","float","string",
              "ref","range"}

----------------------------------------------------------------------------
(* calendar                                                                *)
Weekdays == <<"sun","mon","tue","wed","thu","fri","sat">>
Months   == <<"jan","feb","mar","apr","may","jun","jul","aug","sep","oct","nov","dec">>
NameIdx(names, x) == IF \E i \in 1..Len(names) : names[i] = x
                     THEN CHOOSE i \in 1..Len(names) : names[i] = x ELSE 0
In(v, a, b) == a <= v /\ v <= b
CalNode(fr, f, t) ==
  CASE fr.kind = "DATE" -> [k |-> "date", f |-> f, t |-> t, y |-> fr.c[1], m |-> fr.c[2], d |-> fr.c[3]]
    [] fr.kind = "TIME" -> [k |-> "time", f |-> f, t |-> t, h |-> fr.c[1], m |-> fr.c[2],
                            s |-> IF Len(fr.c) = 3 THEN fr.c[3] ELSE 0, u |-> fr.u]
    [] fr.kind = "WEEKDAY" -> [k |-> "weekday", f |-> f, t |-> t, v |-> fr.c[1]]
    [] fr.kind = "MONTH"   -> [k |-> "month", f |-> f, t |-> t, v |-> fr.c[1]]

----------------------------------------------------------------------------
(* returning a value to the frame below                                    *)
BadReturn(fr, v) ==
  CASE fr.f = "arr" -> v.k \notin ItemKinds \/ (fr.kind # "" /\ fr.kind # v.k)
    [] fr.f = "un"  -> fr.ph = "h" /\ v.k = "range"
    [] fr.f = "geo" -> v.k # "dist"
    [] fr.f = "trig" -> (fr.ph = "rc" /\ v.k # "int") \/ (fr.ph \in {"ri","ra"} /\ v.k # "dur")
    [] OTHER -> FALSE

Take(fr, v) ==
  CASE fr.f = "bin" ->
        IF fr.op.t = "" THEN [fr EXCEPT !.l = v]
        ELSE [fr EXCEPT !.op = NoTok,
                !.l = [k |-> "bin", f |-> fr.l.f, t |-> v.t, op |-> fr.op.t, on |-> fr.op.n,
                       a |-> fr.l, b |-> v]]
    [] fr.f = "un" ->
        IF fr.ph = "h"
        THEN [fr EXCEPT !.ph = "r",
                !.v = [k |-> "range", f |-> fr.v.f, t |-> v.t, lo |-> fr.v, hi |-> v]]
        ELSE [fr EXCEPT !.ph = "v", !.v = v]
    [] fr.f = "arr" -> [fr EXCEPT !.kind = v.k, !.items = Append(@, v)]
    [] fr.f = "par" -> [fr EXCEPT !.e = v]
    [] fr.f = "sel" -> [fr EXCEPT !.props = Append(@, v)]
    [] fr.f = "geo" -> [fr EXCEPT !.ph = "z", !.v = [fr.v EXCEPT !.t = v.t, !.rad = v]]
    [] fr.f = "mul" -> [fr EXCEPT !.ph = "e", !.items = Append(@, v)]
    [] fr.f = "trig" ->
        CASE fr.ph = "val" -> [fr EXCEPT !.ph = "semi", !.v = v]
          [] fr.ph = "w"   -> [fr EXCEPT !.ph = "w2", !.w = v]
          [] fr.ph = "rc"  -> [fr EXCEPT !.ph = "rp1", !.rc = v]
          [] fr.ph = "ri"  -> [fr EXCEPT !.ph = "rp3", !.ri = v]
          [] fr.ph = "ra"  -> [fr EXCEPT !.ph = "rs2", !.ra = v]

RECURSIVE Feed(_, _)

Ret(s, v, k) ==
  LET p == Pop(s) fr == Top(p)
  IN IF BadReturn(fr, v) THEN Rej(v.f, k.n)
     ELSE Feed(Swap(p, Take(fr, v)), k)

----------------------------------------------------------------------------
(* one operator per frame kind: the transitions that take token k          *)

\* the operand starts with k
Operand(s, k) ==
  CASE k.t \in {"INT","FLOAT"} -> PushNum(s, k, "", 0)
    [] k.t = "STRING"  -> Ok(Push(s, FDone([k |-> "string", f |-> k.n, t |-> k.n,
                                            v |-> SubSeq(k.x, 2, Len(k.x) - 1)])))
    [] k.t = "BOOLEAN" -> Ok(Push(s, FDone([k |-> "bool", f |-> k.n, t |-> k.n,
                                            v |-> k.l \in {"true","up"}])))
    [] k.t = "MUL"     -> Ok(Push(s, FDone([k |-> "wild", f |-> k.n, t |-> k.n])))
    [] k.t = "IDENT"   -> Ok(Push(s, FRef(k.n)))
    [] k.t = "SELECTOR" -> Ok(Push(s, FSel(k)))
    [] k.t = "LBRACK"  -> Ok(Push(Push(s, FArr(k.n)), FUn(FALSE)))
    [] k.t = "LPAREN"  -> Ok(Push(Push(Push(s, FPar(k.n)), FBin(1)), FUn(FALSE)))
    [] k.t \in {"POINT","LINE","POLYGON"} -> Ok(Push(s, FGeo(k)))
    [] k.t \in {"MULTIPOINT","MULTILINE","MULTIPOLYGON","COLLECTION"} -> Ok(Push(s, FMul(k)))
    [] k.t \in {"DATE","TIME","WEEKDAY","MONTH"} -> Ok(Push(s, FCal(k)))
    [] OTHER -> Rej(k.n, k.n)

FeedUn(s, k) ==
  LET fr == Top(s) IN
  CASE fr.ph = "s" -> IF k.t \in {"ADD","SUB"}
                      THEN Ok(Swap(s, [fr EXCEPT !.ph = "g", !.sg = IF k.t = "SUB" THEN "-" ELSE "+",
                                                 !.sn = k.n]))
                      ELSE Operand(s, k)
    [] fr.ph = "g" -> IF k.t \in {"INT","FLOAT"} THEN PushNum(s, k, fr.sg, fr.sn)
                      ELSE Rej(k.n, k.n)
    [] fr.ph = "v" -> IF k.t # "RANGE" THEN Ret(s, fr.v, k)
                      ELSE IF fr.v.k = "range" THEN Rej(k.n, k.n)
                      ELSE IF fr.hi THEN Rej(k.n, INF)
                      ELSE Ok(Push(Swap(s, [fr EXCEPT !.ph = "h"]), FUn(TRUE)))
    [] fr.ph = "r" -> Ret(s, fr.v, k)

FeedBin(s, k) ==
  LET fr == Top(s)
  IN IF k.t # "RPAREN" /\ Prec(k.t) >= fr.min
     THEN Ok(Push(Push(Swap(s, [fr EXCEPT !.op = k]), FBin(Prec(k.t) + 1)), FUn(FALSE)))
     ELSE Ret(s, fr.l, k)

FeedNum(s, k) ==
  LET fr == Top(s) v == UnitNode(fr, k)
  IN CASE v.k = "none" -> Ret(s, PlainNum(fr), k)
       [] v.k = "bad"  -> Rej(First(fr), k.n)
       [] OTHER        -> Finish(s, v)

FeedRef(s, k) ==
  IF k.t = "SELECTOR" THEN Finish(s, [k |-> "ref", f |-> Top(s).n, t |-> k.n, v |-> k.x])
  ELSE Rej(k.n, k.n)

SelNode(fr, t) == [k |-> "sel", f |-> fr.n, t |-> t, id |-> fr.id, args |-> fr.args,
                   wc |-> fr.wc, props |-> fr.props]
FeedSel(s, k) ==
  LET fr == Top(s) IN
  CASE fr.ph = "s" ->
        CASE k.t = "LBRACE" -> Ok(Swap(s, [fr EXCEPT !.ph = "a"]))
          [] k.t = "COLON"  -> Ok(Push(Swap(s, [fr EXCEPT !.ph = "p", !.wc = TRUE]), FUn(FALSE)))
          [] OTHER          -> Ret(s, SelNode([fr EXCEPT !.wc = TRUE], fr.n), k)
    [] fr.ph = "a" ->
        CASE k.t = "RBRACE" -> Ok(Swap(s, [fr EXCEPT !.ph = "b", !.n = fr.n,
                                             !.wc = fr.star \/ fr.args = {}])
                                  )
          [] k.t = "COMMA"  -> Ok(s)                     \* deviation: commas are optional
          [] k.t = "MUL"    -> Ok(Swap(s, [fr EXCEPT !.star = TRUE]))
          [] k.t = "STRING" -> Ok(Swap(s, [fr EXCEPT !.args = @ \cup {SubSeq(k.x, 2, Len(k.x)-1)}]))
          [] OTHER          -> Rej(k.n, k.n)
    [] fr.ph = "b" ->
        IF k.t = "COLON" THEN Ok(Push(Swap(s, [fr EXCEPT !.ph = "p"]), FUn(FALSE)))
        ELSE Ret(s, SelNode(fr, k.n - 1), k)
    [] fr.ph = "p" ->
        IF k.t = "COMMA" THEN Ok(Push(s, FUn(FALSE)))
        ELSE Ret(s, SelNode(fr, fr.props[Len(fr.props)].t), k)

FeedArr(s, k) ==
  LET fr == Top(s)
  IN CASE k.t = "RBRACK" -> Finish(s, [k |-> "arr", f |-> fr.n, t |-> k.n, kind |-> fr.kind,
                                       items |-> fr.items])
       [] k.t \in {"COMMA","COLON"} -> Ok(Push(s, FUn(FALSE)))   \* deviation: colon
       [] OTHER -> Rej(k.n, k.n)

FeedPar(s, k) ==
  LET fr == Top(s)
  IN IF k.t = "RPAREN" THEN Finish(s, [k |-> "paren", f |-> fr.n, t |-> k.n, e |-> fr.e])
     ELSE Rej(k.n, k.n)

Depth(kind) == CASE kind = "POINT" -> 0 [] kind = "LINE" -> 1 [] OTHER -> 2
GeoNode(fr, n) ==
  CASE fr.kind = "POINT" -> [k |-> "point", f |-> fr.n, t |-> n, xy |-> fr.pt, rad |-> None]
    [] fr.kind = "LINE"  -> [k |-> "line", f |-> fr.n, t |-> n, pts |-> fr.pts, rad |-> None]
    [] fr.kind = "POLYGON" -> [k |-> "polygon", f |-> fr.n, t |-> n, rings |-> fr.rings]
FeedGeo(s, k) ==
  LET fr == Top(s) d == Depth(fr.kind) IN
  CASE fr.ph = "s" -> IF k.t = "LBRACK" THEN Ok(Swap(s, [fr EXCEPT !.ph = "c"])) ELSE Rej(k.n, k.n)
    [] fr.ph = "c" ->
       (CASE k.t = "LBRACK" -> IF fr.path = d \/ (fr.open /\ fr.y) THEN Rej(k.n, k.n + 1)
                               ELSE Ok(Swap(s, [fr EXCEPT !.path = @ + 1, !.open = TRUE]))
          [] k.t = "COMMA" ->
               \* deviation: superfluous commas after a complete pair
               IF fr.open /\ Len(fr.c) = 0 THEN Rej(k.n, INF)
               ELSE Ok(Swap(s, [fr EXCEPT !.y = fr.open]))
          [] k.t = "SUB" -> IF fr.open /\ fr.path = d /\ Len(fr.c) = (IF fr.y THEN 1 ELSE 0)
                            THEN Ok(Swap(s, [fr EXCEPT !.ph = "n", !.neg = TRUE]))
                            ELSE Rej(k.n, k.n + 1)
          [] k.t \in {"INT","FLOAT"} ->
               IF NumOk(k) /\ fr.open /\ fr.path = d /\ Len(fr.c) = (IF fr.y THEN 1 ELSE 0)
               THEN Ok(Swap(s, [fr EXCEPT !.c = Append(@, Canon(k.x))]))
               ELSE Rej(k.n, k.n)
          [] k.t = "RBRACK" ->
               IF fr.open /\ (Len(fr.c) # 2 \/ fr.path # d) THEN Rej(k.n, k.n)
               ELSE LET g == IF ~fr.open THEN fr
                             ELSE IF d = 0 THEN [fr EXCEPT !.pt = fr.c]
                             ELSE [fr EXCEPT !.pts = Append(@, fr.c)]
                        h == [g EXCEPT !.open = FALSE, !.c = <<>>, !.y = FALSE]
                        i == IF d = 2 /\ fr.path = 1
                             THEN [h EXCEPT !.rings = Append(@, h.pts), !.pts = <<>>] ELSE h
                    IN IF fr.path > 0 THEN Ok(Swap(s, [i EXCEPT !.path = @ - 1]))
                       ELSE IF fr.kind = "POLYGON" THEN Finish(s, GeoNode(i, k.n))
                       ELSE Ok(Swap(s, [i EXCEPT !.ph = "r", !.v = GeoNode(i, k.n)]))
          [] OTHER -> Rej(k.n, k.n))
    [] fr.ph = "n" -> IF k.t \in {"INT","FLOAT"} /\ NumOk(k)
                      THEN Ok(Swap(s, [fr EXCEPT !.ph = "c", !.neg = FALSE,
                                                 !.c = Append(@, "-" \o Canon(k.x))]))
                      ELSE Rej(k.n, k.n)
    [] fr.ph = "r" -> IF k.t = "COLON" THEN Ok(Swap(s, [fr EXCEPT !.ph = "d"])) ELSE Ret(s, fr.v, k)
    [] fr.ph = "d" -> IF k.t \in {"INT","FLOAT"} THEN PushNum(s, k, "", 0) ELSE Rej(k.n, k.n)
    [] fr.ph = "z" -> Ret(s, fr.v, k)

\* members of a list of geometry objects
Member(kind) == CASE kind = "MULTIPOINT" -> {"POINT"} [] kind = "MULTILINE" -> {"LINE"}
                  [] kind = "MULTIPOLYGON" -> {"POLYGON"}
                  [] OTHER -> {"POINT","LINE","POLYGON","MULTIPOINT","MULTILINE","MULTIPOLYGON"}
FeedMul(s, k) ==
  LET fr == Top(s)
      object == IF k.t \notin Member(fr.kind) THEN Rej(k.n, INF)
                ELSE IF k.t \in {"POINT","LINE","POLYGON"}
                THEN Ok(Push(s, FGeo(k))) ELSE Ok(Push(s, FMul(k)))
  IN CASE fr.ph = "s" -> IF k.t = "LBRACK" THEN Ok(Swap(s, [fr EXCEPT !.ph = "o"])) ELSE Rej(k.n, k.n)
       [] fr.ph = "o" -> object
       [] fr.ph = "e" ->
            CASE k.t = "RBRACK" ->
                   Finish(s, [k |-> IF fr.kind = "COLLECTION" THEN "collection" ELSE "multi",
                              f |-> fr.n, t |-> k.n, kind |-> fr.kind, items |-> fr.items])
              [] k.t = "COMMA" -> Ok(Swap(s, [fr EXCEPT !.ph = "o"]))
              [] OTHER -> object                         \* deviation: commas are optional

\* the bounds of the next number of a date or time
CalFits(fr, v) ==
  LET i == Len(fr.c) + 1
  IN IF fr.kind = "DATE"
     THEN (CASE i = 1 -> In(v, 2022, 2200) [] i = 2 -> In(v, 1, 12) [] OTHER -> In(v, 1, 31))
     ELSE (CASE i = 1 -> In(v, 0, 24) [] OTHER -> In(v, 0, 59))

\* after a complete element: , .. or ]
CalNext(s, fr, k) ==
  LET el == CalNode(fr, fr.e, k.n - 1)
      go(mode, v, items) == Ok(Swap(s, [fr EXCEPT !.ph = "e", !.c = <<>>, !.u = "", !.mode = mode,
                                                   !.v = v, !.items = items]))
  IN CASE k.t = "COMMA" -> IF fr.mode = "rng" THEN Rej(k.n, k.n)
                           ELSE go("arr", None, Append(fr.items, el))
       [] k.t \in {"RANGE","PERIOD"} -> IF fr.mode # "one" THEN Rej(k.n, k.n)
                                        ELSE go("rng", el, <<>>)
       [] k.t = "RBRACK" ->
           (CASE fr.mode = "one" -> Finish(s, CalNode(fr, fr.n, k.n))
              [] fr.mode = "arr" -> Finish(s, [k |-> "arr", f |-> fr.n, t |-> k.n,
                                               kind |-> el.k, items |-> Append(fr.items, el)])
              [] fr.mode = "rng" -> Finish(s, [k |-> "range", f |-> fr.n, t |-> k.n,
                                               lo |-> fr.v, hi |-> el]))
       [] OTHER -> Rej(k.n, k.n)

FeedCalUnit(s, fr, k) ==
  IF k.l \in {"am","pm"}            \* the only unit that is spelled in any case
  THEN Ok(Swap(s, [fr EXCEPT !.ph = "x", !.u = UnitOf(k.l)]))
  ELSE Rej(k.n, k.n + 1)

FeedCal(s, k) ==
  LET fr == Top(s)
      val == IF k.t = "INT" /\ ~HasUnderscore(k.x) THEN SmallVal(k.x) ELSE -1
      late == k.n + 4         \* bounds are checked when the element is complete
      number(next) == IF val >= 0 /\ CalFits(fr, val)
                      THEN Ok(Swap(s, [fr EXCEPT !.c = Append(@, val), !.ph = next]))
                      ELSE Rej(k.n, late)
      name(names, zero) ==
        LET i == NameIdx(names, k.l)
        IN IF k.t = "SELECTOR" /\ i > 0
           THEN Ok(Swap(s, [fr EXCEPT !.c = <<i - zero>>, !.ph = "x", !.e = k.n]))
           ELSE Rej(k.n, k.n)
  IN
  CASE fr.ph = "s" -> IF k.t = "LBRACK" THEN Ok(Swap(s, [fr EXCEPT !.ph = "e"])) ELSE Rej(k.n, k.n)
    [] fr.ph = "e" ->
        (CASE fr.kind = "WEEKDAY" -> name(Weekdays, 1)
           [] fr.kind = "MONTH"   -> name(Months, 0)
           [] OTHER -> LET r == number("-") IN
                       IF r.lo > 0 THEN r ELSE Ok(Swap(r.s, [Top(r.s) EXCEPT !.e = k.n])))
    [] fr.ph = "-" ->        \* between the numbers of a date or time
        (IF fr.kind = "DATE"
         THEN (IF k.t = "SUB" THEN Ok(Swap(s, [fr EXCEPT !.ph = "#"])) ELSE Rej(k.n, late))
         ELSE (IF k.t = "COLON" THEN Ok(Swap(s, [fr EXCEPT !.ph = "#"])) ELSE Rej(k.n, late)))
    [] fr.ph = "#" -> number(CASE fr.kind = "DATE" /\ Len(fr.c) = 1 -> "-"
                               [] fr.kind = "TIME" /\ Len(fr.c) = 1 -> ":"
                               [] fr.kind = "TIME" -> "u"
                               [] OTHER -> "x")
    [] fr.ph = ":" ->        \* after hours and minutes
        (CASE k.t = "COLON" -> Ok(Swap(s, [fr EXCEPT !.ph = "#"]))
           [] k.t = "PERIOD" -> Rej(k.n, late)
           [] k.t = "SELECTOR" -> FeedCalUnit(s, fr, k)
           [] OTHER -> CalNext(s, fr, k))
    [] fr.ph = "u" -> IF k.t = "SELECTOR" THEN FeedCalUnit(s, fr, k) ELSE CalNext(s, fr, k)
    [] fr.ph = "x" -> CalNext(s, fr, k)

----------------------------------------------------------------------------
(* the statement                                                           *)
TrigNode(fr, t) == [k |-> "trigger", f |-> fr.fi, t |-> t, vars |-> fr.vars, w |-> fr.w,
                    rc |-> fr.rc, ri |-> fr.ri, ra |-> fr.ra]
FAcc(v) == [f |-> "acc", v |-> v]
Operand0(s) == Ok(Push(s, FUn(FALSE)))
When(s, fr) == Ok(Push(Push(Swap(s, [fr EXCEPT !.ph = "w"]), FBin(1)), FUn(FALSE)))

Assigned(vars, name) == \E i \in 1..Len(vars) : vars[i].n = name
FeedTrig(s, k) ==
  LET fr == Top(s)
      go(ph) == Ok(Swap(s, [fr EXCEPT !.ph = ph]))
      accept == Ok(Swap(s, FAcc(TrigNode(fr, k.n - 1))))
      no == Rej(k.n, k.n)
      after(eof) == CASE k.t = "EOF" -> accept [] k.t = "RESET" -> go("rs0") [] OTHER -> no
  IN
  CASE fr.ph = "s0" -> CASE k.t = "TRIGGER" -> Ok(Swap(s, [fr EXCEPT !.ph = "s1", !.fi = k.n]))
                         [] k.t = "WHEN"    -> When(s, [fr EXCEPT !.fi = k.n])
                         [] OTHER           -> no
    [] fr.ph = "s1" -> CASE k.t = "WHEN" -> When(s, fr)
                         [] k.t = "SET"  -> go("set")
                         [] OTHER        -> no
    [] fr.ph = "set" -> CASE k.t = "WHEN"     -> When(s, fr)
                          [] k.t = "SELECTOR" -> Ok(Swap(s, [fr EXCEPT !.ph = "id", !.id = k]))
                          [] OTHER            -> no
    [] fr.ph = "id" -> IF k.t = "ASSIGN"
                       THEN Ok(Push(Swap(s, [fr EXCEPT !.ph = "val", !.tp = k.n]), FUn(FALSE)))
                       ELSE no
    [] fr.ph = "semi" ->
         IF fr.v.k = "ref" \/ (fr.v.k = "arr" /\ fr.v.kind = "ref") THEN Rej(fr.v.f, k.n + 1)
         ELSE IF Assigned(fr.vars, fr.id.x) THEN Rej(fr.id.n, k.n + 1)
         ELSE LET q == Swap(s, [fr EXCEPT !.ph = "set", !.vars = Append(@,
                         [n |-> fr.id.x, f |-> fr.id.n, tp |-> fr.tp, v |-> fr.v])])
              IN IF k.t = "SEMICOLON" THEN Ok(q) ELSE Feed(q, k)   \* deviation: optional
    [] fr.ph = "w2" -> CASE k.t = "REPEAT" -> go("rp0") [] OTHER -> after(TRUE)
    [] fr.ph = "rp0" -> IF k.t = "INT" THEN PushNum(Swap(s, [fr EXCEPT !.ph = "rc"]), k, "", 0)
                        ELSE after(TRUE)
    [] fr.ph = "rp1" -> IF k.t = "SELECTOR" THEN go("rp2") ELSE after(TRUE)
    [] fr.ph = "rp2" -> IF k.t \in {"INT","FLOAT"}
                        THEN PushNum(Swap(s, [fr EXCEPT !.ph = "ri"]), k, "", 0) ELSE no
    [] fr.ph = "rp3" -> after(TRUE)
    [] fr.ph = "rs0" -> IF k.t = "SELECTOR" THEN go("rs1") ELSE no
    [] fr.ph = "rs1" -> IF k.t \in {"INT","FLOAT"}
                        THEN PushNum(Swap(s, [fr EXCEPT !.ph = "ra"]), k, "", 0) ELSE no
    [] fr.ph = "rs2" -> IF k.t = "EOF" THEN accept ELSE no

Feed(s, k) ==
  LET fr == Top(s)
  IN CASE fr.f = "un"   -> FeedUn(s, k)
       [] fr.f = "bin"  -> FeedBin(s, k)
       [] fr.f = "done" -> Ret(s, fr.v, k)
       [] fr.f = "num"  -> FeedNum(s, k)
       [] fr.f = "sel"  -> FeedSel(s, k)
       [] fr.f = "arr"  -> FeedArr(s, k)
       [] fr.f = "par"  -> FeedPar(s, k)
       [] fr.f = "ref"  -> FeedRef(s, k)
       [] fr.f = "geo"  -> FeedGeo(s, k)
       [] fr.f = "mul"  -> FeedMul(s, k)
       [] fr.f = "cal"  -> FeedCal(s, k)
       [] fr.f = "trig" -> FeedTrig(s, k)

----------------------------------------------------------------------------
Start == Ok(<<FTrig>>)
Viable(c)   == c.lo = 0
Accepted(c) == c.lo = 0 /\ Len(c.s) = 1 /\ c.s[1].f = "acc"
Tree(c)     == c.s[1].v

\* one transition on token number n of the input
Step(c, tok, n) == IF Viable(c) THEN Feed(c.s, tok @@ [n |-> n]) ELSE c

\* the outcome of a text: the tree, or where it goes wrong
ParseToks(toks) ==
  FoldLeft(LAMBDA c, i : Step(c, toks[i], i), Start, [i \in 1..Len(toks) |-> i])
Parse(chars) ==
  LET z == Tokenize(chars)
      c == IF z.err THEN Rej(1, INF) ELSE ParseToks(z.toks)
  IN [toks |-> z.toks, err |-> z.err, c |-> c]
=============================================================================
