------------------------------- MODULE GqlTree -------------------------------
(***************************************************************************)
(* The parts of a node, in the order of the text.                          *)
(***************************************************************************)
EXTENDS GqlParse

Assigned1(x) == [k |-> "assign", f |-> x.f, t |-> x.v.t, n |-> x.n, v |-> x.v]
Given(v) == IF v = None THEN <<>> ELSE <<v>>
Children(v) ==
  CASE v.k = "sel" -> v.props
    [] v.k = "range" -> <<v.lo, v.hi>>
    [] v.k = "paren" -> <<v.e>>
    [] v.k = "bin" -> <<v.a, v.b>>
    [] v.k = "arr" -> v.items
    [] v.k \in {"point","line"} -> Given(v.rad)
    [] v.k \in {"multi","collection"} -> v.items
    [] v.k = "assign" -> <<[k |-> "ident", f |-> v.f, t |-> v.f], v.v>>
    [] v.k = "trigger" -> [i \in 1..Len(v.vars) |-> Assigned1(v.vars[i])] \o <<v.w>>
                          \o Given(v.rc) \o Given(v.ri) \o Given(v.ra)
    [] OTHER -> <<>>
=============================================================================
