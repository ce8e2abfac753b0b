------------------------------- MODULE GqlNum -------------------------------
(***************************************************************************)
(* Numbers as digit strings: TLC's integers have 32 bits, GeoQL's 64, and  *)
(* values beyond either range matter (overflow, exact durations).          *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt, TLC, GqlLex

At(s, i) == SubSeq(s, i, i)
From(s, i) == SubSeq(s, i, Len(s))

RECURSIVE StripL(_)
StripL(s) == IF Len(s) > 1 /\ At(s, 1) = "0" THEN StripL(From(s, 2)) ELSE s
RECURSIVE StripR(_)
StripR(s) == IF Len(s) > 0 /\ At(s, Len(s)) = "0" THEN StripR(SubSeq(s, 1, Len(s)-1)) ELSE s

RECURSIVE IndexOf(_, _, _)
IndexOf(s, c, i) == IF i > Len(s) THEN 0 ELSE IF At(s, i) = c THEN i ELSE IndexOf(s, c, i+1)

RECURSIVE Zeros(_)
Zeros(n) == IF n = 0 THEN "" ELSE "0" \o Zeros(n-1)

HasUnderscore(s) == IndexOf(s, "_", 1) > 0
\* every underscore is between two digits
UnderscoresOk(s) ==
  \A i \in 1..Len(s) : At(s, i) = "_" =>
     i > 1 /\ i < Len(s) /\ At(s, i-1) \in Digits /\ At(s, i+1) \in Digits
Plain(s) == IF HasUnderscore(s)
            THEN FoldLeft(LAMBDA a, c : IF c = "_" THEN a ELSE a \o c, "", Chars(s)) ELSE s

\* integer part and fraction of a literal: 1, 1., 1.50
DotAt(s)    == IndexOf(s, ".", 1)
IntPart(s)  == IF DotAt(s) = 0 THEN s ELSE SubSeq(s, 1, DotAt(s)-1)
FracPart(s) == IF DotAt(s) = 0 THEN "" ELSE From(s, DotAt(s)+1)

\* canonical decimal: no superfluous zeros
Canon(s0) == LET s == Plain(s0) i == StripL(IntPart(s)) f == StripR(FracPart(s))
            IN IF f = "" THEN i ELSE i \o "." \o f

\* digit-wise comparison of canonical integers
RECURSIVE CmpAt(_, _, _)
CmpAt(a, b, i) ==
  IF i > Len(a) THEN 0
  ELSE LET x == DigitVal[At(a, i)] y == DigitVal[At(b, i)]
       IN IF x < y THEN -1 ELSE IF x > y THEN 1 ELSE CmpAt(a, b, i+1)
CmpInt(a, b) == IF Len(a) < Len(b) THEN -1 ELSE IF Len(a) > Len(b) THEN 1 ELSE CmpAt(a, b, 1)

MaxInt == "9223372036854775807"
FitsInt(s) == CmpInt(StripL(s), MaxInt) <= 0

\* value of a short digit string, -1 if it does not fit 6 digits
SmallVal(s0) ==
  LET s == StripL(s0)
  IN IF Len(s) > 6 THEN -1
     ELSE FoldLeft(LAMBDA a, d : 10 * a + DigitVal[d], 0, Chars(s))

----------------------------------------------------------------------------
(* digit-sequence arithmetic, least significant digit first                 *)
Rev(s) == [i \in 1..Len(s) |-> DigitVal[At(s, Len(s) + 1 - i)]]
UnRev(q) == StripL(FoldLeft(LAMBDA a, d : ToString(d) \o a, "", q))

RECURSIVE AddSeq(_, _, _, _)
AddSeq(a, b, i, carry) ==
  IF i > Len(a) /\ i > Len(b)
  THEN (IF carry = 0 THEN <<>> ELSE <<carry>>)
  ELSE LET x == IF i <= Len(a) THEN a[i] ELSE 0
           y == IF i <= Len(b) THEN b[i] ELSE 0
           z == x + y + carry
       IN <<z % 10>> \o AddSeq(a, b, i+1, z \div 10)
AddDec(s, t) == UnRev(AddSeq(Rev(s), Rev(t), 1, 0))

RECURSIVE MulSeq(_, _, _, _)
MulSeq(a, n, i, carry) ==
  IF i > Len(a) THEN (IF carry = 0 THEN <<>> ELSE <<carry % 10>> \o MulSeq(a, n, i, carry \div 10))
  ELSE LET z == a[i] * n + carry
       IN <<z % 10>> \o MulSeq(a, n, i+1, z \div 10)
MulDec(s, n) == UnRev(MulSeq(Rev(s), n, 1, 0))

\* s * n * 10^z, truncated; z may be negative
ScaleDec(s, n, z) ==
  LET p == MulDec(s, n)
  IN IF z >= 0 THEN StripL(p \o Zeros(z))
     ELSE IF Len(p) <= -z THEN "0" ELSE StripL(SubSeq(p, 1, Len(p) + z))

----------------------------------------------------------------------------
(* durations: a number directly followed by h, m, s, ms, us or ns, possibly *)
(* more whole numbers with units; the value is in nanoseconds               *)
DurFactor(u) == CASE u = "ns" -> 1 [] u = "us" -> 1 [] u = "µs" -> 1 [] u = "ms" -> 1
                  [] u = "s" -> 1 [] u = "m" -> 6 [] u = "h" -> 36 [] OTHER -> 0
DurShift(u)  == CASE u = "ns" -> 0 [] u = "us" -> 3 [] u = "µs" -> 3 [] u = "ms" -> 6
                  [] u = "s" -> 9 [] u = "m" -> 10 [] u = "h" -> 11 [] OTHER -> 0

\* segments <<number, unit>> of the characters after the number literal
DurSplit(num, chars) ==
  LET step(a, ch) ==
        IF ch \in Digits
        THEN (IF a.u = "" THEN [a EXCEPT !.d = @ \o ch]
              ELSE [out |-> Append(a.out, <<a.d, a.u>>), d |-> ch, u |-> ""])
        ELSE [a EXCEPT !.u = @ \o ch]
      z == FoldLeft(step, [out |-> <<>>, d |-> num, u |-> ""], chars)
  IN Append(z.out, <<z.d, z.u>>)

SegNs(seg) == LET f == FracPart(seg[1])
              IN ScaleDec(IntPart(seg[1]) \o f, DurFactor(seg[2]), DurShift(seg[2]) - Len(f))

\* the duration num ++ unit in nanoseconds, "" if there is none
Duration(num, unit) ==
  LET segs == DurSplit(num, Chars(unit))
  IN IF \E i \in 1..Len(segs) : DurFactor(segs[i][2]) = 0 THEN ""
     ELSE LET v == FoldLeft(LAMBDA a, s : AddDec(a, SegNs(s)), "0", segs)
          IN IF CmpInt(v, MaxInt) <= 0 THEN v ELSE ""
=============================================================================
