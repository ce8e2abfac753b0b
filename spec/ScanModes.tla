------------------------------ MODULE ScanModes ------------------------------
(***************************************************************************)
(* The scanner package on its own: a scanner for Go-like tokens with modes,*)
(* blanks and identifiers chosen by the caller, positions with lines and   *)
(* columns, and single characters on demand.                               *)
(*                                                                         *)
(* The state is a text, a way to read it (a sequence of calls), and nothing*)
(* else: the configuration of the scanner is a function of both.  Calls:   *)
(*   S  Scan: the next token                                               *)
(*   N  Next: the next character                                           *)
(*   C  the caller switches to the next of the family's configurations     *)
(*   I  Init: start over with the same text and the default configuration  *)
(* After a malformed token only Init is specified.                         *)
(***************************************************************************)
EXTENDS GqlLex

Families == ndJsonDeserialize(IOEnv.GQL_SCAN)

VARIABLES f, ws, ops
vars == <<f, ws, ops>>

SetOf(q) == {q[i] : i \in 1..Len(q)}
Fam == Families[f]
Text(g, w) == FoldLeft(LAMBDA a, i : a \o Families[g].words[i], Families[g].prefix, w)

GoModes == {"ident", "int", "float", "char", "string", "raw", "comment", "skip"}
GoBlanks == Spaces
Config(g, i) == LET c == Families[g].configs[i]
                IN [modes  |-> SetOf(c.modes), blanks |-> SetOf(c.blanks),
                    start |-> IF c.std THEN Letters ELSE SetOf(c.start),
                    later |-> IF c.std THEN <<Letters \cup LaterDigits>>
                              ELSE [k \in 1..Len(c.later) |-> SetOf(c.later[k])]]

----------------------------------------------------------------------------
(* where a character is                                                     *)

OffsetAt(cs, i) == FoldLeft(LAMBDA a, k : a + Width(cs[k]), 0, [k \in 1..(i - 1) |-> k])
PlaceAt(cs, i) ==
  FoldLeft(LAMBDA a, k : IF cs[k] = "\n" THEN [l |-> a.l + 1, c |-> 1] ELSE [a EXCEPT !.c = @ + 1],
           [l |-> 1, c |-> 1], [k \in 1..(i - 1) |-> k])

(* what is wrong with characters, whatever they belong to                   *)
Wrong(cs, i, j) ==
  FoldLeft(LAMBDA a, k : CASE cs[k] = "NUL" -> Append(a, "invalid character NUL")
                           [] cs[k] = "BAD" -> Append(a, "invalid UTF-8 encoding")
                           [] OTHER -> a,
           <<>>, [k \in 1..(j - i) |-> i + k - 1])

----------------------------------------------------------------------------
(* pieces of tokens: indices of characters; err is "" or what is wrong, and *)
(* at the character where that is seen                                      *)

RECURSIVE Run(_, _, _)
Run(cs, i, S) == IF i <= Len(cs) /\ cs[i] \in S THEN Run(cs, i + 1, S) ELSE i

\* the rest of an identifier: the character k has to be in later[k], those
\* behind the last of these sets in it
RECURSIVE Rest(_, _, _, _)
Rest(cs, i, k, later) ==
  IF i <= Len(cs) /\ cs[i] \in later[IF k < Len(later) THEN k ELSE Len(later)]
  THEN Rest(cs, i + 1, k + 1, later) ELSE i

Piece(j, n) == [j |-> j, n |-> n, err |-> "", at |-> 0]
Fail(cs, i, msg) == [j |-> 0, n |-> 0, err |-> msg, at |-> IF i > Len(cs) THEN Len(cs) ELSE i]

HexDigits == Digits \cup HexExtra \cup {"A","B","C","D","E","F"}

\* exactly n digits of a set from i on
Exactly(cs, i, S, n) ==
  LET j == Run(cs, i, S)
  IN IF j >= i + n THEN Piece(i + n, 0) ELSE Fail(cs, j, "invalid char escape")
Escape(cs, i, q) ==
  IF i > Len(cs) THEN Fail(cs, i, "invalid char escape")
  ELSE CASE cs[i] \in {"a","b","f","n","r","t","v","\\"} \/ cs[i] = q -> Piece(i + 1, 0)
         [] cs[i] \in Octal -> Exactly(cs, i, Octal, 3)
         [] cs[i] = "x" -> Exactly(cs, i + 1, HexDigits, 2)
         [] cs[i] = "u" -> Exactly(cs, i + 1, HexDigits, 4)
         [] cs[i] = "U" -> Exactly(cs, i + 1, HexDigits, 8)
         [] OTHER -> Fail(cs, i, "invalid char escape")

RECURSIVE Quoted(_, _, _, _)   \* the rest of a literal, n characters so far
Quoted(cs, i, q, n) ==
  IF i > Len(cs) \/ cs[i] = "\n" THEN Fail(cs, i, "literal not terminated")
  ELSE IF cs[i] = q THEN Piece(i + 1, n)
  ELSE IF cs[i] = "\\" THEN
    LET e == Escape(cs, i + 1, q) IN IF e.err # "" THEN e ELSE Quoted(cs, e.j, q, n + 1)
  ELSE Quoted(cs, i + 1, q, n + 1)

Raws(cs, i) == LET j == Run(cs, i, SetOf(cs) \ {"`"})
               IN IF j > Len(cs) THEN Fail(cs, j, "literal not terminated") ELSE Piece(j + 1, 0)

RECURSIVE Until(_, _)
Until(cs, i) == IF i >= Len(cs) THEN Fail(cs, Len(cs) + 1, "comment not terminated")
                ELSE IF cs[i] = "*" /\ cs[i + 1] = "/" THEN Piece(i + 2, 0) ELSE Until(cs, i + 1)
\* from the second character of the mark on
Remark(cs, i) == IF cs[i] = "/" THEN Piece(Run(cs, i + 1, SetOf(cs) \ {"\n"}), 0) ELSE Until(cs, i + 1)

----------------------------------------------------------------------------
(* a token: class or character t, characters i to j-1                       *)

Token(t, i, p) == [t |-> t, i |-> i, j |-> p.j, err |-> p.err, at |-> p.at, odd |-> ""]
Char(cs, i) == Token(cs[i], i, Piece(i + 1, 0))

Number(cs, i, cfg) ==
  LET D == Digits \cup {"_"}
      j == Run(cs, i, D)
  IN IF j <= Len(cs) /\ cs[j] = "." /\ "float" \in cfg.modes
     THEN Token("Float", i, Piece(Run(cs, j + 1, D), 0))
     ELSE Token("Int", i, Piece(j, 0))

RECURSIVE TokenAt(_, _, _)
TokenAt(cs, p, cfg) ==
  LET i == Run(cs, p, cfg.blanks)
      next(c) == i < Len(cs) /\ cs[i + 1] \in c
  IN IF i > Len(cs) THEN Token("EOF", i, Piece(i, 0))
     ELSE CASE cs[i] \in cfg.start ->
                 IF "ident" \in cfg.modes THEN Token("Ident", i, Piece(Rest(cs, i + 1, 1, cfg.later), 0))
                 ELSE Char(cs, i)
            [] cs[i] \notin cfg.start /\ cs[i] \in Digits ->
                 IF {"int", "float"} \cap cfg.modes # {} THEN Number(cs, i, cfg) ELSE Char(cs, i)
            [] cs[i] \notin cfg.start /\ cs[i] = "\"" /\ "string" \in cfg.modes ->
                 Token("String", i, Quoted(cs, i + 1, "\"", 0))
            [] cs[i] \notin cfg.start /\ cs[i] = "'" /\ "char" \in cfg.modes ->
                 LET q == Quoted(cs, i + 1, "'", 0)
                 IN [Token("Char", i, q) EXCEPT
                       !.odd = IF q.err = "" /\ q.n # 1 THEN "invalid char literal" ELSE ""]
            [] cs[i] \notin cfg.start /\ cs[i] = "`" /\ "raw" \in cfg.modes -> Token("RawString", i, Raws(cs, i + 1))
            \* a point followed by a digit is no number of this scanner, and what it is is left open
            [] cs[i] \notin cfg.start /\ cs[i] = "." /\ next(Digits) /\ "float" \in cfg.modes ->
                 Token("?", i, Piece(i + 1, 0))
            [] cs[i] \notin cfg.start /\ cs[i] = "/" /\ next({"/", "*"}) /\ "comment" \in cfg.modes ->
                 LET r == Remark(cs, i + 1)
                 IN IF "skip" \in cfg.modes /\ r.err = "" THEN TokenAt(cs, r.j, cfg)
                    ELSE Token("Comment", i, r)
            [] OTHER -> Char(cs, i)

----------------------------------------------------------------------------
(* the scanner: p the next character, seen what every call showed   *)
(* (m the errors that it reports)                                           *)

Nothing == [t |-> "", x |-> <<>>, o |-> 0, l |-> 0, c |-> 0, po |-> 0, pl |-> 0, pc |-> 0, m |-> <<>>, dead |-> FALSE]
Fresh(cs, cfg) == [p |-> IF Len(cs) > 0 /\ cs[1] = BOM THEN 2 ELSE 1, cfg |-> cfg, n |-> 1,
                   dead |-> FALSE, seen |-> <<>>]

See(cs, y, t, i, j) ==
  LET a == PlaceAt(cs, i) b == PlaceAt(cs, j)
  IN [Nothing EXCEPT !.t = t, !.x = SubSeq(cs, i, j - 1), !.o = OffsetAt(cs, i), !.l = a.l, !.c = a.c,
                     !.po = OffsetAt(cs, j), !.pl = b.l, !.pc = b.c]

DoScan(cs, y) ==
  LET k == TokenAt(cs, y.p, y.cfg)
      j == IF k.err = "" THEN k.j ELSE k.at + 1
      m == Wrong(cs, y.p, j) \o (IF k.err # "" THEN <<k.err>> ELSE IF k.odd # "" THEN <<k.odd>> ELSE <<>>)
  IN [y EXCEPT !.p = j, !.dead = (k.err # ""),
               !.seen = Append(@, [See(cs, y, k.t, k.i, j) EXCEPT !.m = m, !.dead = (k.err # "")])]
DoNext(cs, y) ==
  LET end == y.p > Len(cs)
      j == IF end THEN y.p ELSE y.p + 1
      m == Wrong(cs, y.p, j)
  IN [y EXCEPT !.p = j,
               !.seen = Append(@, [See(cs, y, IF end THEN "EOF" ELSE cs[y.p], y.p, j) EXCEPT !.m = m])]
DoSwitch(g, y) ==
  LET n == (y.n % Len(Families[g].configs)) + 1
  IN [y EXCEPT !.n = n, !.cfg = Config(g, n), !.seen = Append(@, Nothing)]
\* the identifiers are the caller's and stay
DoInit(cs, y) == [Fresh(cs, [y.cfg EXCEPT !.modes = GoModes, !.blanks = GoBlanks])
                    EXCEPT !.n = y.n, !.seen = Append(y.seen, Nothing)]

Do(g, cs, y, op) == CASE op = "S" -> DoScan(cs, y) [] op = "N" -> DoNext(cs, y)
                      [] op = "C" -> DoSwitch(g, y) [] op = "I" -> DoInit(cs, y)
After(g, w, o) == LET cs == Text(g, w)
                  IN FoldLeft(LAMBDA y, op : Do(g, cs, y, op), Fresh(cs, Config(g, 1)), o)

----------------------------------------------------------------------------
(* Texts grow first, then the calls.                                        *)

Init == f \in 1..Len(Families) /\ ws = <<>> /\ ops = <<>>
Type == /\ ops = <<>> /\ Len(ws) < Fam.depth
        /\ \E w \in 1..Len(Fam.words) : ws' = Append(ws, w)
        /\ UNCHANGED <<f, ops>>
Limit == Fam.calls + (IF Fam.ops = <<"S">> THEN Len(Text(f, ws)) + 1 ELSE 0)
\* the end was reported twice
Over(o, y) == LET n == Len(o) IN /\ n > 1 /\ Fam.ops = <<"S">>
                                 /\ y.seen[n].t = "EOF" /\ y.seen[n - 1].t = "EOF"
Full(y) == Len(ops) = Limit \/ (y.dead /\ "I" \notin SetOf(Fam.ops)) \/ Over(ops, y)
Call == LET y == After(f, ws, ops)
        IN /\ ~Full(y)
           /\ \E op \in SetOf(Fam.ops) : (y.dead => op = "I") /\ ops' = Append(ops, op)
           /\ UNCHANGED <<f, ws>>
Next == Type \/ Call

Show == ops # <<>> =>
          LET y == After(f, ws, ops)
          IN Full(y) => PrintT(ToJson([f |-> f, w |-> ws, o |-> ops, seen |-> y.seen]))

----------------------------------------------------------------------------
(* what the specification itself has to satisfy                             *)

\* scanning goes on: a token is behind the one before, and ends where reading stands
Forward ==
  LET y == After(f, ws, ops)
      q == y.seen
  IN \A a \in 1..Len(ops) : ops[a] \in {"S", "N"} =>
       /\ q[a].o <= q[a].po
       /\ q[a].t \notin {"EOF"} => q[a].o < q[a].po
       /\ a > 1 /\ ops[a - 1] \in {"S", "N"} => q[a - 1].po <= q[a].o
       /\ <<q[a].l, q[a].c>> # <<q[a].pl, q[a].pc>> \/ q[a].t = "EOF"
\* with blanks and comments, tokens are all of the text
AllRead ==
  LET y == After(f, ws, ops)
      cs == Text(f, ws)
  IN ops # <<>> /\ SetOf(ops) = {"N"} /\ y.seen[Len(ops)].t = "EOF" /\ (cs = <<>> \/ cs[1] # BOM)
       => FoldLeft(LAMBDA a, o : a \o o.x, <<>>, y.seen) = cs
=============================================================================
