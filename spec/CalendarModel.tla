---------------------------- MODULE CalendarModel ----------------------------
EXTENDS Calendar
CONSTANT Last
VARIABLES y, m, d, n
Init == y = 1970 /\ m = 1 /\ d = 1 /\ n = 0
Next == /\ y <= Last /\ n' = n + 1
        /\ IF d < Length(y, m) THEN d' = d + 1 /\ UNCHANGED <<y, m>>
           ELSE d' = 1 /\ IF m < 12 THEN m' = m + 1 /\ y' = y ELSE m' = 1 /\ y' = y + 1
Spec == Init /\ [][Next]_<<y, m, d, n>>
Agree == Days(y, m, d) = n /\ Valid(y, m, d)
=============================================================================
