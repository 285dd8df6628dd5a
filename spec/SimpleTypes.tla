---------------------------- MODULE SimpleTypes ----------------------------
(***************************************************************************)
(* The simple types of XML Schema as the library supports them: lexical     *)
(* space, value space and constraining facets.                              *)
(*                                                                          *)
(* Values are records:                                                      *)
(*   [t |-> "none"]  [t |-> "nil"]                                          *)
(*   [t |-> "str", s |-> text]                                              *)
(*   [t |-> "bool", b |-> BOOLEAN]                                          *)
(*   [t |-> "num", n |-> decimal]         [t |-> "inf", neg |-> BOOLEAN]    *)
(*   [t |-> "nan"]                                                          *)
(*   [t |-> "date", y, m, d, tz]  [t |-> "dt", y, m, d, h, mi, s, us, tz]   *)
(*   [t |-> "time", h, mi, s, us, tz]     tz: <<>> or <<minutes>>           *)
(* Lexical mappings return <<>> (not in the lexical space) or <<value>>.    *)
(***************************************************************************)
EXTENDS Text, Regex, TLC

None == [t |-> "none"]
Nil == [t |-> "nil"]

StringTypes == {"string", "anyURI", "QName", "NMTOKEN", "NMTOKENS", "base64Binary", "duration"}
IntegerTypes == {"integer", "nonNegativeInteger", "nonPositiveInteger", "negativeInteger", "positiveInteger", "long",
                 "int", "short", "byte", "unsignedLong", "unsignedInt", "unsignedShort", "unsignedByte"}
FloatTypes == {"double", "float"}
NumericTypes == IntegerTypes \cup FloatTypes \cup {"decimal"}

(*------------------------------ value spaces ------------------------------*)
Nat2(d) == Dec(FALSE, d, <<>>)
Neg2(d) == Dec(TRUE, d, <<>>)
\* Powers of two as digit sequences (checked against Pow2 by the assumption below, once).
P7 == <<1, 2, 8>>
P8 == <<2, 5, 6>>
P15 == <<3, 2, 7, 6, 8>>
P16 == <<6, 5, 5, 3, 6>>
P31 == <<2, 1, 4, 7, 4, 8, 3, 6, 4, 8>>
P32 == <<4, 2, 9, 4, 9, 6, 7, 2, 9, 6>>
P63 == <<9, 2, 2, 3, 3, 7, 2, 0, 3, 6, 8, 5, 4, 7, 7, 5, 8, 0, 8>>
P64 == <<1, 8, 4, 4, 6, 7, 4, 4, 0, 7, 3, 7, 0, 9, 5, 5, 1, 6, 1, 6>>
ASSUME /\ P7 = Pow2(7) /\ P8 = Pow2(8) /\ P15 = Pow2(15) /\ P16 = Pow2(16)
       /\ P31 = Pow2(31) /\ P32 = Pow2(32) /\ P63 = Pow2(63) /\ P64 = Pow2(64)
Zero == Nat2(<<>>)
One == Nat2(<<1>>)
\* The inclusive bounds of the integer types: <<>> where there is none.
LowerBound(type) ==
    CASE type \in {"integer", "nonPositiveInteger", "negativeInteger"} -> <<>>
      [] type \in {"nonNegativeInteger", "unsignedLong", "unsignedInt", "unsignedShort", "unsignedByte"} -> <<Zero>>
      [] type = "positiveInteger" -> <<One>>
      [] type = "long" -> <<Neg2(P63)>>
      [] type = "int" -> <<Neg2(P31)>>
      [] type = "short" -> <<Neg2(P15)>>
      [] type = "byte" -> <<Neg2(P7)>>
UpperBound(type) ==
    CASE type \in {"integer", "nonNegativeInteger", "positiveInteger"} -> <<>>
      [] type = "nonPositiveInteger" -> <<Zero>>
      [] type = "negativeInteger" -> <<Neg2(<<1>>)>>
      [] type = "long" -> <<Nat2(PredNat(P63))>>
      [] type = "int" -> <<Nat2(PredNat(P31))>>
      [] type = "short" -> <<Nat2(PredNat(P15))>>
      [] type = "byte" -> <<Nat2(PredNat(P7))>>
      [] type = "unsignedLong" -> <<Nat2(PredNat(P64))>>
      [] type = "unsignedInt" -> <<Nat2(PredNat(P32))>>
      [] type = "unsignedShort" -> <<Nat2(PredNat(P16))>>
      [] type = "unsignedByte" -> <<Nat2(PredNat(P8))>>
InRange(type, x) ==
    /\ LowerBound(type) = <<>> \/ CmpDec(x, LowerBound(type)[1]) >= 0
    /\ UpperBound(type) = <<>> \/ CmpDec(x, UpperBound(type)[1]) <= 0

(*----------------------------- lexical spaces -----------------------------*)
Unsign(s) == IF s # <<>> /\ s[1] \in {43, 45} THEN Tail(s) ELSE s
IsNeg(s) == s # <<>> /\ s[1] = 45

LexInteger(s) ==
    LET u == Unsign(s)
    IN  IF u # <<>> /\ AllDigits(u) THEN <<Dec(IsNeg(s), DigitsOf(u), <<>>)>> ELSE <<>>

LexDecimal(s) ==
    LET u == Unsign(s)
        dots == Positions(u, 46)
        at == IF dots = {} THEN Len(u) + 1 ELSE MinOf(dots)
        ip == SubSeq(u, 1, at - 1)
        fp == SubSeq(u, at + 1, Len(u))
    IN  IF AllDigits(ip) /\ AllDigits(fp) /\ (ip # <<>> \/ fp # <<>>)
        THEN <<Dec(IsNeg(s), DigitsOf(ip), DigitsOf(fp))>> ELSE <<>>

LexDouble(s) ==
    CASE s = <<73, 78, 70>> -> <<[t |-> "inf", neg |-> FALSE]>>
      [] s = <<45, 73, 78, 70>> -> <<[t |-> "inf", neg |-> TRUE]>>
      [] s = <<78, 97, 78>> -> <<[t |-> "nan"]>>
      [] OTHER ->
         LET es == Positions(s, 69) \cup Positions(s, 101)
             at == IF es = {} THEN Len(s) + 1 ELSE MinOf(es)
             m == LexDecimal(SubSeq(s, 1, at - 1))
             e == LexInteger(SubSeq(s, at + 1, Len(s)))
         IN  IF m = <<>> THEN <<>>
             ELSE IF es = {} THEN <<[t |-> "num", n |-> m[1]]>>
             ELSE IF e = <<>> \/ Len(e[1].i) > 4 THEN <<>>
             ELSE <<[t |-> "num", n |-> Shift(m[1], IF e[1].neg THEN 0 - Num(e[1].i) ELSE Num(e[1].i))]>>

LexBoolean(s) ==
    CASE s \in {<<116, 114, 117, 101>>, <<49>>} -> <<[t |-> "bool", b |-> TRUE]>>
      [] s \in {<<102, 97, 108, 115, 101>>, <<48>>} -> <<[t |-> "bool", b |-> FALSE]>>
      [] OTHER -> <<>>

IsLeap(y) == (y % 4 = 0 /\ y % 100 # 0) \/ y % 400 = 0
DaysIn(y, m) == IF m = 2 THEN (IF IsLeap(y) THEN 29 ELSE 28) ELSE IF m \in {4, 6, 9, 11} THEN 30 ELSE 31

\* Fixed width numbers: the n digits of s from position i, or -1.
Fixed(s, i, n) ==
    IF i + n - 1 <= Len(s) /\ \A k \in i..(i + n - 1) : IsDigit(s[k])
    THEN Num([k \in 1..n |-> s[i + k - 1] - 48]) ELSE -1
At(s, i, c) == i <= Len(s) /\ s[i] = c

\* What follows position i has to be a time zone: [ok, tz].
LexZone(s, i) ==
    CASE i = Len(s) + 1 -> [ok |-> TRUE, tz |-> <<>>]
      [] i = Len(s) /\ s[i] = 90 -> [ok |-> TRUE, tz |-> <<0>>]
      [] i + 5 = Len(s) /\ s[i] \in {43, 45} /\ At(s, i + 3, 58) /\ Fixed(s, i + 1, 2) >= 0 /\ Fixed(s, i + 4, 2) >= 0 ->
         LET h == Fixed(s, i + 1, 2)
             m == Fixed(s, i + 4, 2)
             off == IF s[i] = 45 THEN 0 - (60 * h + m) ELSE 60 * h + m
         IN  [ok |-> m <= 59 /\ 60 * h + m <= 840, tz |-> <<off>>]
      [] OTHER -> [ok |-> FALSE, tz |-> <<>>]

\* yyyy-mm-dd at position i
DateAt(s, i) ==
    LET y == Fixed(s, i, 4)
        m == Fixed(s, i + 5, 2)
        d == Fixed(s, i + 8, 2)
    IN  [shape |-> y >= 0 /\ m >= 0 /\ d >= 0 /\ At(s, i + 4, 45) /\ At(s, i + 7, 45),
         ok |-> y >= 1 /\ m \in 1..12 /\ d >= 1 /\ (m \in 1..12 => d <= DaysIn(y, m)), y |-> y, m |-> m, d |-> d]

\* hh:mm:ss(.f+)? at position i; nx is the position after it
TimeAt(s, i) ==
    LET h == Fixed(s, i, 2)
        mi == Fixed(s, i + 3, 2)
        sec == Fixed(s, i + 6, 2)
        after == i + 8
        run == {k \in (after + 1)..Len(s) : \A j \in (after + 1)..k : IsDigit(s[j])}
        hasf == At(s, after, 46)
        frac == IF hasf /\ run # {} THEN [k \in 1..Cardinality(run) |-> s[after + k] - 48] ELSE <<>>
    IN  [shape |-> h >= 0 /\ mi >= 0 /\ sec >= 0 /\ At(s, i + 2, 58) /\ At(s, i + 5, 58) /\ (hasf => run # {}),
         ok |-> h <= 23 /\ mi <= 59 /\ sec <= 59, h |-> h, mi |-> mi, s |-> sec, frac |-> frac,
         us |-> Num(SubSeq(frac \o Zeros(6), 1, 6)),
         nx |-> IF hasf THEN after + 1 + Len(frac) ELSE after]

LexDate(s) ==
    LET dt == DateAt(s, 1)
        z == LexZone(s, 11)
    IN  IF dt.shape /\ dt.ok /\ z.ok THEN <<[t |-> "date", y |-> dt.y, m |-> dt.m, d |-> dt.d, tz |-> z.tz]>> ELSE <<>>

LexDateTime(s) ==
    LET dt == DateAt(s, 1)
        tm == TimeAt(s, 12)
        z == LexZone(s, tm.nx)
    IN  IF dt.shape /\ dt.ok /\ At(s, 11, 84) /\ tm.shape /\ tm.ok /\ z.ok
        THEN <<[t |-> "dt", y |-> dt.y, m |-> dt.m, d |-> dt.d, h |-> tm.h, mi |-> tm.mi, s |-> tm.s, us |-> tm.us, tz |-> z.tz]>>
        ELSE <<>>

LexTime(s) ==
    LET tm == TimeAt(s, 1)
        z == LexZone(s, tm.nx)
    IN  IF tm.shape /\ tm.ok /\ z.ok
        THEN <<[t |-> "time", h |-> tm.h, mi |-> tm.mi, s |-> tm.s, us |-> tm.us, tz |-> z.tz]>> ELSE <<>>

\* The lexical mapping of a built-in type (whitespace has been handled by Read).
Lex(type, s) ==
    CASE type \in StringTypes -> <<[t |-> "str", s |-> s]>>
      [] type \in IntegerTypes ->
         LET x == LexInteger(s) IN IF x # <<>> /\ InRange(type, x[1]) THEN <<[t |-> "num", n |-> x[1]]>> ELSE <<>>
      [] type = "decimal" -> LET x == LexDecimal(s) IN IF x = <<>> THEN <<>> ELSE <<[t |-> "num", n |-> x[1]]>>
      [] type \in FloatTypes -> LexDouble(s)
      [] type = "boolean" -> LexBoolean(s)
      [] type = "date" -> LexDate(s)
      [] type = "dateTime" -> LexDateTime(s)
      [] type = "time" -> LexTime(s)

ReadBuiltin(type, s) == Lex(type, IF type \in StringTypes THEN s ELSE Trim(s))

(***************************************************************************)
(* Text which is not in the lexical space but close enough to another       *)
(* notation of ISO 8601 that the library may read it.                       *)
(***************************************************************************)
IsoAlphabet == (48..57) \cup {84, 116, 90, 122, 43, 45, 58, 46, 44, 32, 8722}
MaybeIso(type, text) ==
    LET s == Trim(text)
        dt == DateAt(s, 1)
        tm == TimeAt(s, IF type = "time" THEN 1 ELSE 12)
    IN  /\ type \in {"date", "dateTime", "time"}
        /\ \A i \in 1..Len(s) : s[i] \in IsoAlphabet
        /\ (type = "date") => /\ dt.shape /\ dt.ok
                              /\ ~LexZone(s, 11).ok
                              /\ Len(s) > 10 /\ s[11] \in {43, 45} /\ (Len(s) = 15 \/ Len(s) = 16)
        /\ (type = "dateTime" /\ dt.shape) => (dt.ok /\ Len(s) # 10 => (tm.shape => tm.ok \/ tm.h = 24)) /\ (~dt.ok => FALSE)
        /\ (type = "time" /\ tm.shape) => (tm.ok \/ tm.h = 24)

(***************************************************************************)
(* Equality of values as the type defines it: points in time are the same   *)
(* whatever the offset they are written with.                               *)
(***************************************************************************)
DayNumber(y, m, d) == \* a day count that is monotone and exact for adjacent days
    LET yy == IF m <= 2 THEN y - 1 ELSE y
        mm == IF m <= 2 THEN m + 9 ELSE m - 3
    IN  365 * yy + (yy \div 4) - (yy \div 100) + (yy \div 400) + (153 * mm + 2) \div 5 + d
Instant(v) ==
    LET off == IF v.tz = <<>> THEN 0 ELSE v.tz[1]
        minutes == 60 * v.h + v.mi - off
        day == IF v.t = "dt" THEN DayNumber(v.y, v.m, v.d) ELSE 0
    IN  <<day + (minutes \div 1440), minutes % 1440, v.s, v.us, v.tz = <<>> >>

SameValue(a, b) ==
    IF a.t # b.t THEN FALSE
    ELSE IF a.t = "dt" THEN Instant(a) = Instant(b)
    ELSE IF a.t = "time" THEN Instant(a) = Instant(b)
    ELSE a = b

(*--------------------------------- facets ---------------------------------*)
\* Facets are a record with the facets given; numbers in bounds are literals of the type.
Has(f, name) == name \in DOMAIN f

Normalize(f, s) ==
    IF ~Has(f, "whiteSpace") \/ f.whiteSpace = "preserve" THEN s
    ELSE IF f.whiteSpace = "replace" THEN ReplaceWs(s) ELSE Collapse(s)

\* The names of the facets which the normalised string does not satisfy.
StringFaults(f, s) ==
    {name \in {"pattern", "enumeration", "length", "minLength", "maxLength"} :
        /\ Has(f, name)
        /\ CASE name = "pattern" -> ~Matches(f.pattern, s)
             [] name = "enumeration" -> \A k \in 1..Len(f.enumeration) : f.enumeration[k] # s
             [] name = "length" -> Len(s) # f.length
             [] name = "minLength" -> Len(s) < f.minLength
             [] name = "maxLength" -> Len(s) > f.maxLength}

\* Comparison of numeric values: "lt", "eq", "gt" or "none" (not a number)
CmpNum(a, b) ==
    LET ord(x) == IF x.t = "inf" THEN (IF x.neg THEN -1 ELSE 1) ELSE 0
    IN  IF a.t = "nan" \/ b.t = "nan" THEN "none"
        ELSE IF a.t = "num" /\ b.t = "num"
        THEN LET c == CmpDec(a.n, b.n) IN IF c < 0 THEN "lt" ELSE IF c = 0 THEN "eq" ELSE "gt"
        ELSE IF ord(a) < ord(b) THEN "lt" ELSE IF ord(a) = ord(b) THEN "eq" ELSE "gt"

\* The digits of a decimal literal.
FractionOf(s) == LET p == Positions(s, 46) IN IF p = {} THEN <<>> ELSE SubSeq(s, MinOf(p) + 1, Len(s))

NumericFaults(type, f, s, v) ==
    {name \in {"pattern", "enumeration", "minInclusive", "minExclusive", "maxInclusive", "maxExclusive",
               "totalDigits", "fractionDigits", "maxFraction"} :
        /\ Has(f, name)
        /\ LET c == IF name \in {"minInclusive", "minExclusive", "maxInclusive", "maxExclusive"}
                    THEN CmpNum(v, IF type \in IntegerTypes THEN [t |-> "num", n |-> LexDecimal(f[name])[1]]
                                   ELSE Lex(type, f[name])[1])
                    ELSE "na"
           IN CASE name = "pattern" -> ~Matches(f.pattern, s)
             [] name = "enumeration" -> \A k \in 1..Len(f.enumeration) : Lex(type, f.enumeration[k])[1] # v
             [] name = "minInclusive" -> c \notin {"eq", "gt"}
             [] name = "minExclusive" -> c # "gt"
             [] name = "maxInclusive" -> c \notin {"eq", "lt"}
             [] name = "maxExclusive" -> c # "lt"
             [] name = "totalDigits" -> Len(v.n.i) + Len(v.n.f) > f.totalDigits
             [] name = "maxFraction" -> Len(v.n.f) > f.maxFraction
             [] name = "fractionDigits" -> type = "decimal" /\ Len(FractionOf(s)) # f.fractionDigits}

(***************************************************************************)
(* What a field of the type with the facets holds after the text or the     *)
(* literal s has been given: <<>> if it is refused, <<value>> otherwise.    *)
(***************************************************************************)
AcceptText(type, f, s) ==
    IF type \in StringTypes
    THEN LET n == Normalize(f, s)
         IN  IF StringFaults(f, n) = {} THEN <<[t |-> "str", s |-> n]>> ELSE <<>>
    ELSE LET v == ReadBuiltin(type, s)
         IN  IF v = <<>> THEN <<>>
             ELSE IF type \in NumericTypes /\ NumericFaults(type, f, Trim(s), v[1]) # {} THEN <<>>
             ELSE v

\* A literal given as a Python value of the kind py, or as text.
Given(type, f, g) ==
    CASE g.py = "none" -> <<None>>
      [] g.py = "bad" -> <<>>                                   \* a Python value no simple type of this kind has
      [] g.py = "float" /\ type \in IntegerTypes -> <<>>
      [] g.py = "empty" /\ type \notin StringTypes -> <<None>>  \* an empty element
      [] OTHER -> AcceptText(type, f, g.lit)

\* The pattern of a number may be matched against its literal or against the number written without redundant
\* signs and zeros: if these differ the specification does not decide.
Undecided(type, f, g) ==
    /\ type \in NumericTypes /\ Has(f, "pattern") /\ g.py = "text"
    /\ LET s == Trim(g.lit)
           u == Unsign(s)
       IN  s # <<>> /\ (s[1] = 43 \/ s = <<45, 48>> \/ (u # <<>> /\ u[1] \in {46, 48}))
=============================================================================
