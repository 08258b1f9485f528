-------------------------------- MODULE Calendar --------------------------------
(* The Gregorian calendar: days are numbered from 1 = 0001-01-01, a Monday.      *)
EXTENDS Integers, Sequences
Leap(y) == (y % 4 = 0 /\ y % 100 # 0) \/ y % 400 = 0
MonthLength(y, m) == IF m = 2 THEN IF Leap(y) THEN 29 ELSE 28 ELSE IF m \in {4, 6, 9, 11} THEN 30 ELSE 31
YearLength(y) == IF Leap(y) THEN 366 ELSE 365
BeforeMonth(y, m) == <<0, 31, 59, 90, 120, 151, 181, 212, 243, 273, 304, 334>>[m] + (IF m > 2 /\ Leap(y) THEN 1 ELSE 0)
BeforeYear(y) == 365 * (y - 1) + (y - 1) \div 4 - (y - 1) \div 100 + (y - 1) \div 400
Day(y, m, d) == BeforeYear(y) + BeforeMonth(y, m) + d
NewYear(y) == Day(y, 1, 1)
LastDay(y) == Day(y, 12, 31)
IsWeekend(day) == (day - 1) % 7 >= 5
===============================================================================
