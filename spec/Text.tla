------------------------------- MODULE Text -------------------------------
(***************************************************************************)
(* Text is a sequence of Unicode code points.  Digit sequences stand for    *)
(* numbers of any magnitude (TLC's integers have 32 bits).                  *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt

Min2(a, b) == IF a <= b THEN a ELSE b
MinOf(S) == CHOOSE x \in S : \A y \in S : x <= y
MaxOf(S) == CHOOSE x \in S : \A y \in S : x >= y

IsWs(c) == c \in {9, 10, 13, 32}
IsDigit(c) == c >= 48 /\ c <= 57

Trim(s) ==
    LET ink == {i \in 1..Len(s) : ~IsWs(s[i])}
    IN  IF ink = {} THEN <<>> ELSE SubSeq(s, MinOf(ink), MaxOf(ink))

ReplaceWs(s) == [i \in 1..Len(s) |-> IF IsWs(s[i]) THEN 32 ELSE s[i]]

Collapse(s) ==
    LET t == ReplaceWs(Trim(s))
        Add(acc, c) == IF c = 32 /\ acc # <<>> /\ acc[Len(acc)] = 32 THEN acc ELSE Append(acc, c)
    IN  FoldLeft(Add, <<>>, t)

\* The positions of a code point in a text.
Positions(s, c) == {i \in 1..Len(s) : s[i] = c}

AllDigits(s) == \A i \in 1..Len(s) : IsDigit(s[i])
DigitsOf(s) == [i \in 1..Len(s) |-> s[i] - 48]

StripLeadingZeros(d) ==
    LET nz == {i \in 1..Len(d) : d[i] # 0}
    IN  IF nz = {} THEN <<>> ELSE SubSeq(d, MinOf(nz), Len(d))
StripTrailingZeros(d) ==
    LET nz == {i \in 1..Len(d) : d[i] # 0}
    IN  IF nz = {} THEN <<>> ELSE SubSeq(d, 1, MaxOf(nz))

Zeros(n) == [i \in 1..n |-> 0]

\* The value of a short digit sequence (at most 9 digits).
RECURSIVE Num(_)
Num(d) == IF d = <<>> THEN 0 ELSE 10 * Num(SubSeq(d, 1, Len(d) - 1)) + d[Len(d)]

\* -1, 0 or 1: comparison of equally long digit sequences, most significant digit first.
CmpSameLength(a, b) ==
    LET diff == {i \in 1..Len(a) : a[i] # b[i]}
    IN  IF diff = {} THEN 0 ELSE IF a[MinOf(diff)] < b[MinOf(diff)] THEN -1 ELSE 1

(***************************************************************************)
(* Decimal numbers: sign, integral digits without leading zeros, fraction   *)
(* digits without trailing zeros; zero is never negative.                   *)
(***************************************************************************)
Dec(neg, i, f) ==
    LET ii == StripLeadingZeros(i)
        ff == StripTrailingZeros(f)
    IN  [neg |-> neg /\ (ii # <<>> \/ ff # <<>>), i |-> ii, f |-> ff]

CmpMagnitude(a, b) ==
    IF Len(a.i) # Len(b.i) THEN (IF Len(a.i) < Len(b.i) THEN -1 ELSE 1)
    ELSE LET n == IF Len(a.f) > Len(b.f) THEN Len(a.f) ELSE Len(b.f)
         IN  CmpSameLength(a.i \o a.f \o Zeros(n - Len(a.f)), b.i \o b.f \o Zeros(n - Len(b.f)))

CmpDec(a, b) ==
    IF a.neg # b.neg THEN (IF a.neg THEN -1 ELSE 1)
    ELSE IF a.neg THEN 0 - CmpMagnitude(a, b) ELSE CmpMagnitude(a, b)

\* Move the decimal point of the number by e digits (e may be negative).
Shift(d, e) ==
    IF e >= 0
    THEN LET f == d.f \o Zeros(IF e > Len(d.f) THEN e - Len(d.f) ELSE 0)
         IN  Dec(d.neg, d.i \o SubSeq(f, 1, e), SubSeq(f, e + 1, Len(f)))
    ELSE LET n == 0 - e
             i == Zeros(IF n > Len(d.i) THEN n - Len(d.i) ELSE 0) \o d.i
         IN  Dec(d.neg, SubSeq(i, 1, Len(i) - n), SubSeq(i, Len(i) - n + 1, Len(i)) \o d.f)

(***************************************************************************)
(* Arithmetic on digit sequences, just enough for the bounds of the types.  *)
(***************************************************************************)
DoubleDigits(d) ==
    LET Step(acc, x) == LET s == 2 * x + acc.carry
                        IN  [carry |-> s \div 10, out |-> <<s % 10>> \o acc.out]
        r == FoldLeft(Step, [carry |-> 0, out |-> <<>>], Reverse(d))
    IN  IF r.carry > 0 THEN <<r.carry>> \o r.out ELSE r.out
RECURSIVE Pow2(_)
Pow2(n) == IF n = 0 THEN <<1>> ELSE DoubleDigits(Pow2(n - 1))

\* Predecessor and successor of natural numbers (d without leading zeros; zero is <<>>).
RECURSIVE PredNat(_)
PredNat(d) == \* d # zero
    IF d[Len(d)] > 0 THEN StripLeadingZeros(SubSeq(d, 1, Len(d) - 1) \o <<d[Len(d)] - 1>>)
    ELSE StripLeadingZeros(PredNat(SubSeq(d, 1, Len(d) - 1)) \o <<9>>)
RECURSIVE SuccNat(_)
SuccNat(d) ==
    IF d = <<>> THEN <<1>>
    ELSE IF d[Len(d)] < 9 THEN SubSeq(d, 1, Len(d) - 1) \o <<d[Len(d)] + 1>>
    ELSE SuccNat(SubSeq(d, 1, Len(d) - 1)) \o <<0>>
\* The same for integers.
SuccInt(x) == IF x.neg THEN Dec(TRUE, PredNat(x.i), <<>>) ELSE Dec(FALSE, SuccNat(x.i), <<>>)
PredInt(x) == IF x.neg \/ x.i = <<>> THEN Dec(TRUE, SuccNat(x.i), <<>>) ELSE Dec(FALSE, PredNat(x.i), <<>>)
=============================================================================
