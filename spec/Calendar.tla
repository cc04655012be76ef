------------------------------ MODULE Calendar ------------------------------
(* Civil calendar: days since 1970-01-01 of a date, and the walk from one day *)
(* to the next.                                                               *)
EXTENDS Integers
Leap(y) == (y % 4 = 0 /\ y % 100 # 0) \/ y % 400 = 0
Length(y, m) == IF m = 2 THEN (IF Leap(y) THEN 29 ELSE 28) ELSE IF m \in {4, 6, 9, 11} THEN 30 ELSE 31
LeapsBefore(y) == ((y - 1) \div 4) - ((y - 1) \div 100) + ((y - 1) \div 400)
Before(y, m) == CASE m = 1 -> 0 [] m = 2 -> 31 [] OTHER ->
   (IF Leap(y) THEN 1 ELSE 0) + (CASE m = 3 -> 59 [] m = 4 -> 90 [] m = 5 -> 120 [] m = 6 -> 151 [] m = 7 -> 181 [] m = 8 -> 212
                                   [] m = 9 -> 243 [] m = 10 -> 273 [] m = 11 -> 304 [] m = 12 -> 334)
Days(y, m, d) == 365 * (y - 1970) + LeapsBefore(y) - LeapsBefore(1970) + Before(y, m) + d - 1
Valid(y, m, d) == m \in 1..12 /\ d >= 1 /\ d <= Length(y, m)
=============================================================================
