------------------------------- MODULE GqlLex -------------------------------
(***************************************************************************)
(* Characters to tokens.  Two deterministic transducers, one step each per *)
(* input element, so that they can be folded over a recorded text (trace   *)
(* conformance) and also be stepped with a nondeterministic character      *)
(* (exhaustive enumeration, module LexEnum):                               *)
(*   LexStep    one character -> raw tokens (the scanner package)          *)
(*   MergeStep  one raw token -> tokens     (Tokenizer.Scan)               *)
(*                                                                         *)
(* A character is a one-character string; "NUL" and "BAD" stand for the    *)
(* byte 0 and for a byte that is not UTF-8.                                *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, TLC, Json, IOUtils

\* The characters of the run that are not ASCII, as Unicode has them:
\* c itself, l its lower case, k "L" letter, "N" decimal digit, "O" other,
\* w bytes in UTF-8.
Uni     == ndJsonDeserialize(IOEnv.GQL_UNI)
UniOf   == FoldLeft(LAMBDA a, r : (r.c :> r) @@ a, <<>>, Uni)
UniSet  == {Uni[i].c : i \in 1..Len(Uni)}
UniKind(k) == {c \in UniSet : UniOf[c].k = k}

Uppers == <<"A","B","C","D","E","F","G","H","I","J","K","L","M","N","O","P","Q",
            "R","S","T","U","V","W","X","Y","Z">>
Lowers == <<"a","b","c","d","e","f","g","h","i","j","k","l","m","n","o","p","q",
            "r","s","t","u","v","w","x","y","z">>
LowerMap == FoldLeft(LAMBDA a, i : a @@ (Uppers[i] :> Lowers[i]),
                     [c \in UniSet |-> UniOf[c].l], [i \in 1..26 |-> i])
UpperSet == DOMAIN LowerMap
Lower(c) == IF c \in UpperSet THEN LowerMap[c] ELSE c

Digits   == {"0","1","2","3","4","5","6","7","8","9"}
DigitVal == FoldLeft(LAMBDA a, n : a @@ (ToString(n) :> n), <<>>, [i \in 1..10 |-> i - 1])
Octal    == Digits \ {"8","9"}
HexExtra == {"a","b","c","d","e","f"}
IsHex(c) == c \in Digits \/ Lower(c) \in HexExtra

BOM   == "BOM"
Width(c) == CASE c \in UniSet -> UniOf[c].w [] c = BOM -> 3 [] OTHER -> 1

Letters == {Uppers[i] : i \in 1..26} \cup {Lowers[i] : i \in 1..26} \cup {"_"} \cup UniKind("L")
LaterDigits == Digits \cup UniKind("N")       \* digits inside an identifier
Spaces  == {" ", "\t", "\n", "\r"}
Simple  == {"a","b","f","n","r","t","v","\\","\""}     \* one-letter escapes
Broken  == {"NUL","BAD"}

----------------------------------------------------------------------------
(* raw tokens: c class, x text, l lower-case text, o offset, w bytes        *)

LexInit == [m |-> "ws", x |-> "", l |-> "", o |-> 0, b |-> 0, n |-> 0,
            out |-> <<>>, err |-> FALSE]

Raw(c, cls) == [c |-> cls, x |-> c.x, l |-> c.l, o |-> c.o, w |-> c.b - c.o]
Emit(c, cls) == [c EXCEPT !.out = Append(@, Raw(c, cls)), !.m = "ws",
                          !.x = "", !.l = ""]
Grow(c, ch, m) == [c EXCEPT !.x = @ \o ch, !.l = @ \o Lower(ch),
                            !.b = @ + Width(ch), !.m = m]
Dead(c, ch) == [c EXCEPT !.err = TRUE, !.m = "dead", !.b = @ + Width(ch)]

LexStart(c0, ch) ==
  LET c == [c0 EXCEPT !.o = c0.b]
  IN CASE ch \in Spaces          -> [c EXCEPT !.b = @ + 1]
       [] ch = BOM /\ c.b = 0    -> [c EXCEPT !.b = @ + 3]
       [] ch \in Letters         -> Grow(c, ch, "id")
       [] ch \in Digits          -> Grow(c, ch, "int")
       [] ch = "\""              -> Grow(c, ch, "str")
       [] ch = "."               -> Grow(c, ch, "dot")
       [] OTHER                  -> Emit(Grow(c, ch, "ws"), ch)

LexStep(c, ch) ==
  IF c.m = "dead" THEN [c EXCEPT !.b = @ + Width(ch)]
  ELSE IF ch \in Broken THEN Dead(c, ch)
  ELSE
  CASE c.m = "ws"  -> LexStart(c, ch)
    [] c.m = "id"  -> IF ch \in Letters \/ ch \in LaterDigits THEN Grow(c, ch, "id")
                      ELSE LexStart(Emit(c, "id"), ch)
    [] c.m = "int" -> IF ch \in Digits \/ ch = "_" THEN Grow(c, ch, "int")
                      ELSE IF ch = "." THEN Grow(c, ch, "flt")
                      ELSE LexStart(Emit(c, "int"), ch)
    [] c.m = "flt" -> IF ch \in Digits \/ ch = "_" THEN Grow(c, ch, "flt")
                      ELSE LexStart(Emit(c, "flt"), ch)
       \* a point followed by a digit is no token of the language
    [] c.m = "dot" -> LexStart(Emit(c, IF ch \in Digits THEN "bad" ELSE "."), ch)
    [] c.m = "str" -> CASE ch = "\"" -> Emit(Grow(c, ch, "ws"), "str")
                        [] ch = "\n" -> Dead(c, ch)
                        [] ch = "\\" -> Grow(c, ch, "esc")
                        [] OTHER     -> Grow(c, ch, "str")
    [] c.m = "esc" -> CASE ch \in Simple -> Grow(c, ch, "str")
                        [] ch \in Octal  -> [Grow(c, ch, "oct") EXCEPT !.n = 2]
                        [] ch = "x"      -> [Grow(c, ch, "hex") EXCEPT !.n = 2]
                        [] ch = "u"      -> [Grow(c, ch, "hex") EXCEPT !.n = 4]
                        [] ch = "U"      -> [Grow(c, ch, "hex") EXCEPT !.n = 8]
                        [] OTHER         -> Dead(c, ch)
    [] c.m = "oct" -> IF ch \in Octal
                      THEN [Grow(c, ch, IF c.n = 1 THEN "str" ELSE "oct") EXCEPT !.n = @ - 1]
                      ELSE Dead(c, ch)
    [] c.m = "hex" -> IF IsHex(ch)
                      THEN [Grow(c, ch, IF c.n = 1 THEN "str" ELSE "hex") EXCEPT !.n = @ - 1]
                      ELSE Dead(c, ch)

LexEnd(c) ==
  LET d == CASE c.m = "id"  -> Emit(c, "id")
             [] c.m = "int" -> Emit(c, "int")
             [] c.m = "flt" -> Emit(c, "flt")
             [] c.m = "dot" -> Emit(c, ".")
             [] c.m \in {"str","esc","oct","hex"} -> [c EXCEPT !.err = TRUE]
             [] OTHER -> c
  IN [d EXCEPT !.out = Append(@, [c |-> "eof", x |-> "", l |-> "", o |-> d.b, w |-> 0])]

----------------------------------------------------------------------------
(* tokens: t kind, l literal that Scan returns, x text, o/e first/last byte *)

KW == [trigger |-> "TRIGGER", set |-> "SET", when |-> "WHEN", repeat |-> "REPEAT",
       reset |-> "RESET", rem |-> "REM", mod |-> "REM", or |-> "OR", and |-> "AND",
       eq |-> "EQL", in |-> "IN", range |-> "RANGE", nearby |-> "NEARBY",
       intersects |-> "INTERSECTS", time |-> "TIME", date |-> "DATE",
       weekday |-> "WEEKDAY", month |-> "MONTH", point |-> "POINT",
       multipoint |-> "MULTIPOINT", line |-> "LINE", multiline |-> "MULTILINE",
       polygon |-> "POLYGON", multipolygon |-> "MULTIPOLYGON",
       collection |-> "COLLECTION", true |-> "BOOLEAN", false |-> "BOOLEAN",
       up |-> "BOOLEAN", down |-> "BOOLEAN"]
KWSet == DOMAIN KW
NotKW == [eq |-> "NOT_EQ", in |-> "NOT_IN", nearby |-> "NOT_NEARBY",
          intersects |-> "NOT_INTERSECTS"]
NotSet == DOMAIN NotKW

Puncts == {"@",";",",","(",")","[","]","{","}","/","+","-","*",":",".","=",">","<"}
PunctTok(c) ==
  CASE c = "@" -> "IDENT" [] c = ";" -> "SEMICOLON" [] c = "," -> "COMMA"
    [] c = "(" -> "LPAREN" [] c = ")" -> "RPAREN" [] c = "[" -> "LBRACK"
    [] c = "]" -> "RBRACK" [] c = "{" -> "LBRACE" [] c = "}" -> "RBRACE"
    [] c = "/" -> "QUO" [] c = "+" -> "ADD" [] c = "-" -> "SUB" [] c = "*" -> "MUL"
    [] c = ":" -> "COLON" [] c = "." -> "PERIOD" [] c = "=" -> "ASSIGN"
    [] c = ">" -> "GTR" [] c = "<" -> "LSS" [] OTHER -> "ILLEGAL"

Tok(t, l, x, o, e) == [t |-> t, l |-> l, x |-> x, o |-> o, e |-> e]
One(r, t) == Tok(t, r.l, r.x, r.o, r.o + r.w - 1)

Single(r) ==
  One(r, CASE r.c = "int" -> "INT" [] r.c = "flt" -> "FLOAT" [] r.c = "str" -> "STRING"
           [] r.c = "eof" -> "EOF" [] r.c = "bad" -> "ILLEGAL"
           [] r.c = "id" -> (IF r.l \in KWSet THEN KW[r.l] ELSE "SELECTOR")
           [] OTHER -> PunctTok(r.c))

Waits(r) == r.c \in {".","=","!",">","<"} \/ (r.c = "id" /\ r.l = "not")

\* both halves of a two-character operator, and both words of "not in"
Joins(p, r) == \/ p.c = "." /\ r.c = "."
               \/ p.c \in {"=","!",">","<"} /\ r.c = "="
               \/ p.c = "id"
JoinTok(p, r) ==
  LET two(t, l) == Tok(t, l, p.x \o r.x, p.o, r.o + r.w - 1)
  IN CASE p.c = "." -> two("RANGE", "range")
       [] p.c = "=" -> two("LEQL", "==")
       [] p.c = "!" -> two("LNEQ", "!=")
       [] p.c = ">" -> two("GEQ", ">=")
       [] p.c = "<" -> two("LEQ", "<=")
       [] OTHER -> Tok(IF r.l \in NotSet THEN NotKW[r.l] ELSE "ILLEGAL",
                       "not " \o r.l, p.x \o " " \o r.x, p.o, r.o + r.w - 1)

NoRaw == [c |-> "", x |-> "", l |-> "", o |-> 0, w |-> 0]
MergeInit == [p |-> NoRaw, out |-> <<>>]

MergeFresh(m, r) == IF Waits(r) THEN [m EXCEPT !.p = r]
                    ELSE [m EXCEPT !.p = NoRaw, !.out = Append(@, Single(r))]
MergeStep(m, r) ==
  IF m.p.c = "" THEN MergeFresh(m, r)
  ELSE IF Joins(m.p, r) THEN
    LET n == [m EXCEPT !.p = NoRaw, !.out = Append(@, JoinTok(m.p, r))]
    \* "not" at the end of the text: the end is reported once more
    IN IF r.c = "eof" THEN [n EXCEPT !.out = Append(@, Single(r))] ELSE n
  ELSE MergeFresh([m EXCEPT !.out = Append(@, Single(m.p))], r)

Tokenize(chars) ==
  LET c == LexEnd(FoldLeft(LexStep, LexInit, chars))
      m == FoldLeft(MergeStep, MergeInit, c.out)
  IN [toks |-> m.out, err |-> c.err]

Chars(s) == [i \in 1..Len(s) |-> SubSeq(s, i, i)]
=============================================================================
