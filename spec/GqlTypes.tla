------------------------------ MODULE GqlTypes ------------------------------
(***************************************************************************)
(* The typing relation that CheckType decides.  The type of an operand is  *)
(* a set: a selector that is declared as Int may also stand for the values *)
(* of several devices.  vs are the variables of the statement, d maps the  *)
(* names of selectors to their declared types.                             *)
(***************************************************************************)
EXTENDS GqlParse

Geo  == {"point","line","polygon","multi","collection"}
Real == {"float","pct","press","dist","speed","temp"}

\* literals, as operand and as value of a variable
Literal(v) == CASE v.k = "int" -> {"Int"} [] v.k \in Real -> {"Float"}
                [] v.k = "string" -> {"String"} [] v.k = "bool" -> {"Boolean"}
                [] v.k \in Geo -> {"Geo"} [] OTHER -> {}
Declared(t) == CASE t \in {"Int","ArrayInt"} -> {"Int","ArrInt"}
                 [] t \in {"Float","ArrayFloat"} -> {"Float","ArrFloat"}
                 [] t \in {"String","ArrayString"} -> {"String","ArrString"}
                 [] t = "Boolean" -> {"Boolean"}
                 [] OTHER -> {}

HasVar(vs, n) == \E i \in 1..Len(vs) : vs[i].n = n
VarVal(vs, n) == vs[CHOOSE i \in 1..Len(vs) : vs[i].n = n].v

ArrOf == [Int |-> "ArrInt", Float |-> "ArrFloat", String |-> "ArrString"]

\* the types of a single value; what a variable stands for is not followed
\* further, so that variables may be assigned values with each other in them
Scalar(v, vs, d) ==
  CASE v.k = "ref" -> IF HasVar(vs, v.v) THEN Literal(VarVal(vs, v.v)) ELSE {}
    [] v.k = "sel" -> IF v.id \in DOMAIN d THEN Declared(d[v.id]) ELSE {}
    [] OTHER -> Literal(v)
\* every element has the type
Elems(items, vs, d) ==
  {ArrOf[t] : t \in {u \in {"Int","Float","String"} :
      \A i \in 1..Len(items) : u \in Scalar(items[i], vs, d)}}
Types(v, vs, d) ==
  CASE v.k = "ref" /\ HasVar(vs, v.v) /\ VarVal(vs, v.v).k = "arr" -> Elems(VarVal(vs, v.v).items, vs, d)
    [] v.k = "arr" -> Elems(v.items, vs, d)
    [] v.k = "range" ->
         LET lo == Scalar(v.lo, vs, d) hi == Scalar(v.hi, vs, d)
         IN IF hi \cap {"Int","Float"} = {} THEN {}
            ELSE (IF "Int" \in lo THEN {"RangeInt"} ELSE {})
                 \cup (IF "Float" \in lo THEN {"RangeFloat"} ELSE {})
    [] OTHER -> Scalar(v, vs, d)

----------------------------------------------------------------------------
(* the operators                                                            *)
Number == {"Int","Float"}
ArrNum == {"ArrInt","ArrFloat"}
RangeNum == {"RangeInt","RangeFloat"}
Equality == {"EQL","LEQL","NOT_EQ","LNEQ"}
Arith == {"ADD","SUB","MUL","QUO","REM"}

Pairs(op) ==
  CASE op \in {"OR","AND"} -> {<<"Boolean","Boolean">>}
    [] op \in Equality ->
         Number \X Number \cup {<<"String","String">>, <<"Boolean","Boolean">>, <<"ArrString","ArrString">>}
         \cup ArrNum \X (ArrNum \cup {"Geo"}) \cup {"Geo"} \X (ArrNum \cup {"Geo"})
    [] op \in {"GEQ","LEQ","GTR","LSS","SUB","MUL","QUO","REM"} -> Number \X Number
    [] op = "ADD" -> Number \X Number \cup {<<"String","String">>}
    [] op \in {"IN","NOT_IN"} ->
         {"Int"} \X ({"ArrInt","Geo"} \cup RangeNum) \cup {"Float"} \X ({"ArrFloat","Geo"} \cup RangeNum)
         \cup {<<"String","ArrString">>, <<"Geo","Geo">>}
    [] op \in {"NEARBY","NOT_NEARBY","INTERSECTS","NOT_INTERSECTS"} ->
         {"Geo","Float","Int"} \X {"Geo"}
    [] OTHER -> {}

\* the type of the result, {} if the operator cannot be applied
Apply(op, a, b) ==
  LET p == Pairs(op) \cap (a \X b)
  IN IF p = {} THEN {}
     ELSE IF op \notin Arith THEN {"Boolean"}
     ELSE IF <<"String","String">> \in p THEN {"String"}
     ELSE IF <<"Int","Int">> \in p THEN {"Int"} ELSE {"Float"}

\* an expression: its type, or the first operator that cannot be applied
RECURSIVE Judge(_, _, _)
Judge(v, vs, d) ==
  CASE v.k = "paren" -> Judge(v.e, vs, d)
    [] v.k = "bin" ->
         LET a == Judge(v.a, vs, d) b == Judge(v.b, vs, d)
             t == Apply(v.op, a.ty, b.ty)
         IN IF a.bad # "" THEN a ELSE IF b.bad # "" THEN b
            ELSE [ty |-> t, bad |-> IF t = {} THEN v.op ELSE ""]
    [] OTHER -> [ty |-> Types(v, vs, d), bad |-> ""]
JudgeStatement(t, d) == Judge(t.w, t.vars, d)
=============================================================================
