------------------------------ MODULE Calendar ------------------------------
(***************************************************************************)
(* Proleptic Gregorian calendar arithmetic.                                *)
(*                                                                         *)
(* An instant is <<day, sec, us>>: day number (1 = 0001-01-01), second of  *)
(* the day, microsecond of the second.  All components stay far below      *)
(* 2^31, which is what TLC's integers can hold.                            *)
(***************************************************************************)
EXTENDS Integers, Sequences

IsLeap(y) == (y % 4 = 0 /\ y % 100 # 0) \/ y % 400 = 0
DaysInMonth(y, m) ==
  CASE m \in {1, 3, 5, 7, 8, 10, 12} -> 31
    [] m \in {4, 6, 9, 11} -> 30
    [] OTHER -> IF IsLeap(y) THEN 29 ELSE 28

CumDays == <<0, 31, 59, 90, 120, 151, 181, 212, 243, 273, 304, 334>>
DaysBeforeYear(y) == LET p == y - 1 IN p * 365 + p \div 4 - p \div 100 + p \div 400
DaysBeforeMonth(y, m) == CumDays[m] + (IF m > 2 /\ IsLeap(y) THEN 1 ELSE 0)
DayNumber(y, m, d) == DaysBeforeYear(y) + DaysBeforeMonth(y, m) + d

(* Instant of the civil fields <<y, m, d, sec, us>> *)
Instant(c) == <<DayNumber(c[1], c[2], c[3]), c[4], c[5]>>

(* Civil date of a day number, by the 400/100/4/1 year cycle decomposition. *)
Civil(n) ==
  LET m0   == n - 1
      n400 == m0 \div 146097
      a    == m0 % 146097
      n100 == a \div 36524
      b    == a % 36524
      n4   == b \div 1461
      c    == b % 1461
      n1   == c \div 365
      dd   == c % 365
      y    == n400 * 400 + n100 * 100 + n4 * 4 + n1 + 1
  IN IF n1 = 4 \/ n100 = 4 THEN <<y - 1, 12, 31>>
     ELSE LET m == CHOOSE k \in 1..12 :
                     /\ DaysBeforeMonth(y, k) <= dd
                     /\ k = 12 \/ DaysBeforeMonth(y, k + 1) > dd
          IN <<y, m, dd - DaysBeforeMonth(y, m) + 1>>

(* total order of instants *)
Before(a, b) == \/ a[1] < b[1]
                \/ a[1] = b[1] /\ a[2] < b[2]
                \/ a[1] = b[1] /\ a[2] = b[2] /\ a[3] < b[3]
AtOrBefore(a, b) == a = b \/ Before(a, b)

AddDays(t, n) == <<t[1] + n, t[2], t[3]>>

(* k months later, on the same day of the month or the month's last day *)
AddMonths(t, k) ==
  LET c  == Civil(t[1])
      m0 == (c[1] * 12 + c[2] - 1) + k
      y  == m0 \div 12
      m  == (m0 % 12) + 1
      dm == DaysInMonth(y, m)
      d  == IF c[3] > dm THEN dm ELSE c[3]
  IN <<DayNumber(y, m, d), t[2], t[3]>>
AddYears(t, k) == AddMonths(t, 12 * k)

(* s seconds later, any integer s *)
AddSeconds(t, s) == LET q == t[2] + s IN <<t[1] + q \div 86400, q % 86400, t[3]>>
AddMinutes(t, k) == LET q == t[2] \div 60 + k
                    IN <<t[1] + q \div 1440, ((q % 1440) * 60) + (t[2] % 60), t[3]>>
AddHours(t, k) == LET q == t[2] \div 3600 + k
                  IN <<t[1] + q \div 24, ((q % 24) * 3600) + (t[2] % 3600), t[3]>>
AddMillis(t, k) == LET q == t[3] + (k % 1000) * 1000
                       u == AddSeconds(t, k \div 1000)
                       v == AddSeconds(u, q \div 1000000)
                   IN <<v[1], v[2], q % 1000000>>

Durations == {"millisecond", "second", "minute", "hour", "day", "week",
              "month", "year"}

(* The instant at which period k of a clock begins.  Always counted from   *)
(* the clock's start, never from the previous period, so that a start on   *)
(* the 31st returns to the 31st after a short month.                       *)
PeriodStart(start, dur, k) ==
  CASE dur = "millisecond" -> AddMillis(start, k)
    [] dur = "second" -> AddSeconds(start, k)
    [] dur = "minute" -> AddMinutes(start, k)
    [] dur = "hour" -> AddHours(start, k)
    [] dur = "day" -> AddDays(start, k)
    [] dur = "week" -> AddDays(start, 7 * k)
    [] dur = "month" -> AddMonths(start, k)
    [] dur = "year" -> AddYears(start, k)
=============================================================================
