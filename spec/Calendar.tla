------------------------------ MODULE Calendar ------------------------------
(***************************************************************************)
(* P12: texts of dates and times, explored around every boundary of the     *)
(* calendar, the clock and the offsets.  A state is a text put together      *)
(* from parts; the action Write completes it.  Every text is reported and    *)
(* replayed into the library, whose reading is judged by LexicalTrace.       *)
(***************************************************************************)
EXTENDS SimpleTypes, Json

CONSTANT Deep
VARIABLES type, date, clock, zone, done
vars == <<type, date, clock, zone, done>>

D2(n) == <<48 + (n \div 10), 48 + (n % 10)>>
D4(n) == D2(n \div 100) \o D2(n % 100)
Years == IF Deep THEN {0, 1, 4, 100, 999, 1000, 1582, 1900, 1970, 1999, 2000, 2023, 2024, 2100, 9999} ELSE {0, 1, 999, 1900, 2000, 2023, 2024, 9999}
MonthDays == {<<1, 1>>, <<1, 31>>, <<2, 28>>, <<2, 29>>, <<2, 30>>, <<4, 30>>, <<4, 31>>, <<6, 31>>, <<9, 31>>, <<11, 31>>, <<12, 31>>,
              <<12, 32>>, <<13, 1>>, <<0, 1>>, <<5, 0>>, <<10, 10>>}
DateText(y, md) == D4(y) \o <<45>> \o D2(md[1]) \o <<45>> \o D2(md[2])
Dates == {DateText(y, md) : y \in Years, md \in MonthDays}
FewDates == {DateText(2024, <<2, 29>>), DateText(2023, <<2, 29>>), DateText(1, <<1, 1>>), DateText(9999, <<12, 31>>), DateText(999, <<10, 10>>), DateText(2000, <<12, 31>>)}
Fractions == {<<>>, <<46, 53>>, <<46, 48, 48, 48, 48, 48, 49>>, <<46, 49, 50, 48, 48, 48, 48>>, <<46, 57, 57, 57, 57, 57, 57>>, <<46, 48, 53, 48>>, <<46>>}
Hours == {0, 9, 12, 23, 25}
Minutes == {0, 7, 59, 60}
Seconds == {0, 59, 60}
ClockText(h, m, s, f) == D2(h) \o <<58>> \o D2(m) \o <<58>> \o D2(s) \o f
Clocks == {ClockText(h, m, s, f) : h \in Hours, m \in Minutes, s \in Seconds, f \in Fractions}
FewClocks == {ClockText(h, m, s, f) : h \in {0, 23, 25}, m \in {7, 59}, s \in {0, 59, 60}, f \in {<<>>, <<46, 53>>, <<46, 48, 48, 48, 48, 48, 49>>}}
Z(sign, h, m) == <<sign>> \o D2(h) \o <<58>> \o D2(m)
Zones == {<<90>>, Z(43, 0, 0), Z(45, 0, 0), Z(43, 0, 30), Z(45, 0, 30), Z(43, 5, 45), Z(45, 3, 30), Z(43, 14, 0), Z(45, 14, 0), Z(45, 11, 59),
          Z(43, 1, 0), Z(45, 9, 0), <<>>}
BadZones == {<<120>>, <<43>>, <<43, 53>>, <<90, 90>>, Z(43, 25, 0), <<43, 48, 53, 58, 51>>}

Init == /\ type \in {"date", "dateTime", "time"}
        /\ date = <<>> /\ clock = <<>> /\ zone = <<>> /\ done = FALSE
Text(t, d, k, z) == IF t = "date" THEN d \o z ELSE IF t = "time" THEN k \o z ELSE d \o <<84>> \o k \o z
Write(d, k, z) ==
    /\ ~done /\ done' = TRUE /\ UNCHANGED type
    /\ date' = d /\ clock' = k /\ zone' = z
    /\ LET s == Text(type, d, k, z)
           v == ReadBuiltin(type, s)
       IN  PrintT("@@" \o ToJson([type |-> type, text |-> s, valid |-> v # <<>>, value |-> IF v = <<>> THEN None ELSE v[1]]))
Next ==
    \/ type = "date" /\ \E d \in Dates, z \in Zones \cup BadZones : Write(d, <<>>, z)
    \/ type = "time" /\ \E k \in Clocks, z \in (IF Deep THEN Zones ELSE {<<90>>, Z(45, 0, 30), Z(43, 5, 45)}) : Write(<<>>, k, z)
    \/ type = "time" /\ \E k \in {ClockText(9, 7, 0, <<>>), ClockText(23, 59, 59, <<46, 53>>)}, z \in Zones \cup BadZones : Write(<<>>, k, z)
    \/ type = "dateTime" /\ \E d \in FewDates, k \in FewClocks, z \in Zones : Write(d, k, z)
    \/ type = "dateTime" /\ \E d \in Dates, k \in {ClockText(23, 59, 59, <<46, 53>>)}, z \in {<<90>>, Z(45, 3, 30)} : Write(d, k, z)
    \/ type = "dateTime" /\ Deep /\ \E d \in Dates, k \in FewClocks, z \in Zones : Write(d, k, z)
Spec == Init /\ [][Next]_vars

(* The value of a text has fields within their limits, and an offset never changes the instant of its fields. *)
Sound == done =>
    LET v == ReadBuiltin(type, Text(type, date, clock, zone))
    IN  v # <<>> => CASE type = "date" -> v[1].d \in 1..DaysIn(v[1].y, v[1].m)
                      [] OTHER -> v[1].h \in 0..23 /\ v[1].mi \in 0..59 /\ SameValue(v[1], v[1])
OffsetShifts == done /\ type = "dateTime" =>
    LET v == ReadBuiltin(type, Text(type, date, clock, zone))
    IN  (v # <<>> /\ v[1].tz # <<>> /\ v[1].tz[1] = 60 /\ v[1].h >= 1) => SameValue(v[1], [v[1] EXCEPT !.tz = <<0>>, !.h = v[1].h - 1])
=============================================================================
