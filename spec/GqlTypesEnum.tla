---------------------------- MODULE GqlTypesEnum ----------------------------
(***************************************************************************)
(* All applications of the operators to operands of every kind, and the    *)
(* applications of operators to their results.                             *)
(***************************************************************************)
EXTENDS GqlTypes, Json, IOUtils

Dict == [si |-> "Int", sf |-> "Float", ss |-> "String", sb |-> "Boolean",
         ai |-> "ArrayInt", af |-> "ArrayFloat", as |-> "ArrayString", bad |-> "Other"]
Head1 == "trigger set vi = 1; vf = 1.5; vs = \"s\"; vb = true; vg = point[1,2]; vai = [1,-2]; "
         \o "vaf = [1.5]; vas = [\"x\"]; vk = 10kph; vsel = si; vr = 1 .. 2; vd = 10s; vas2 = [ss, sb]; "
         \o "vl = line[[1,2],[3,4]]; vpar = (1); vasel = [si, ai]; when "
Texts == <<"1", "-2.5", "\"s\"", "true", "20%", "2Bar", "3km", "4kph", "-5C", "10s", "*",
   "si", "sf{\"x\"}:1km", "ss", "sb", "ai", "af", "as", "bad", "undeclared",
   "point[1,2]:3km", "line[[1,2],[3,4]]", "polygon[[[1,2]]]", "multipoint[point[1,2]]", "collection[point[1,2]]",
   "[1, 2]", "[1.5, 2.0]", "[\"s\", \"t\"]", "[10s]", "[si, ai]", "[si, sf]", "[ss, as]", "[@vi, @vi]", "[@vi, @vf]",
   "[1kph]", "[1 .. 2]", "[sb, sb]", "[si, ss, si]", "[si, si, sf, si]", "[@vs, @vi, @vs]", "[ss, ss, ss]", "[@vk, @vf, @vf]",
   "1 .. 2", "1.5 .. 2", "1 .. 2kph", "si .. 5", "sf .. si", "@vf .. @vi", "\"s\" .. 5", "1 .. \"s\"", "(1) .. 2",
   "@vi", "@vf", "@vs", "@vb", "@vg", "@vai", "@vaf", "@vas", "@vk", "@vsel", "@vr", "@vd", "@vas2", "@vl", "@vpar",
   "@vasel", "@VI", "@nope",
   "date[2022-02-03]", "time[1:02 .. 3:04]", "weekday[sun, mon]", "(si)", "((1.5))">>
TypeOf(x) == LET t == Tree(Parse(Chars(Head1 \o x)).c) IN Judge(t.w, t.vars, Dict).ty
Sets == FoldLeft(LAMBDA a, x : Append(a, TypeOf(x)), <<>>, Texts)
Ops == {"OR","AND","LSS","LEQ","GTR","GEQ","EQL","LEQL","LNEQ","NOT_EQ","IN","NOT_IN","NEARBY","NOT_NEARBY",
        "INTERSECTS","NOT_INTERSECTS","ADD","SUB","MUL","QUO","REM"}
OpText(t) ==
  CASE t = "OR" -> "or" [] t = "AND" -> "and" [] t = "LSS" -> "<" [] t = "LEQ" -> "<="
    [] t = "GTR" -> ">" [] t = "GEQ" -> ">=" [] t = "EQL" -> "eq" [] t = "LEQL" -> "=="
    [] t = "LNEQ" -> "!=" [] t = "NOT_EQ" -> "not eq" [] t = "IN" -> "in"
    [] t = "NOT_IN" -> "not in" [] t = "INTERSECTS" -> "intersects"
    [] t = "NOT_INTERSECTS" -> "not intersects" [] t = "NEARBY" -> "nearby"
    [] t = "NOT_NEARBY" -> "not nearby" [] t = "ADD" -> "+" [] t = "SUB" -> "-"
    [] t = "MUL" -> "*" [] t = "QUO" -> "/" [] t = "REM" -> "rem"
\* operands of nested applications: one of each type
Few == IF IOEnv.GQL_DEEP = "1" THEN 1..Len(Texts)
       ELSE {1, 2, 3, 4, 12, 13, 14, 15, 21, 26, 38, 46, 10}
Some == {1, 2, 3, 4, 21, 26, 28, 38, 12}

VARIABLES n,     \* operators applied
          x,     \* the expression
          ty, bad,
          few    \* the expression consists of operands of Some
vars == <<n, x, ty, bad, few>>

Init == /\ n = 0 /\ bad = ""
        /\ \E i \in 1..Len(Texts) : x = Texts[i] /\ ty = Sets[i] /\ few = (i \in Some)

Become(op, a, b) == LET t == Apply(op, a, b)
                  IN ty' = t /\ bad' = IF t = {} THEN op ELSE ""
Wrap(e) == IF n = 0 THEN e ELSE "(" \o e \o ")"
Next == /\ bad = "" /\ n < 2
        /\ n' = n + 1
        /\ \E op \in Ops : \E i \in (IF n = 0 THEN 1..Len(Texts) ELSE Few) :
             /\ n = 1 => few
             /\ few' = (few /\ i \in Some)
             /\ \/ /\ x' = Wrap(x) \o " " \o OpText(op) \o " " \o Texts[i]
                   /\ Become(op, ty, Sets[i])
                \/ /\ n > 0
                   /\ x' = Texts[i] \o " " \o OpText(op) \o " " \o Wrap(x)
                   /\ Become(op, Sets[i], ty)

\* the result of an operator has exactly one type, and a boolean is only
\* combined with booleans
OneType == n > 0 => Cardinality(ty) = (IF bad = "" THEN 1 ELSE 0)
Results == n > 0 => ty \subseteq {"Int","Float","String","Boolean"}
ASSUME PrintT(ToJson([head |-> Head1]))
Show == PrintT(ToJson([x |-> x, bad |-> bad, op |-> IF bad = "" THEN "" ELSE OpText(bad)]))
=============================================================================
