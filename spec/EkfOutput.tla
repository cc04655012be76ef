------------------------------ MODULE EkfOutput ------------------------------
(* Image poses of the Kalman filter: states (increasing times, one of them at *)
(* the time of every image of the span) and images; the cursor walk of the    *)
(* implementation gives each image of the span the state of its own time.     *)
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt, FiniteSetsExt
CONSTANTS MaxT, NI
VARIABLES st, im, i, j, out
vars == <<st, im, i, j, out>>
InSpan(s, t) == Len(s) > 0 /\ s[1] <= t /\ t <= s[Len(s)]
Wanted(s, m) == SelectSeq(m, LAMBDA x : InSpan(s, x))
Incr(n) == {f \in [1..n -> 0..MaxT] : \A a \in 2..n : f[a - 1] <= f[a]}      \* equal image times allowed
Init == /\ st \in {SetToSortSeq(x, LAMBDA a, b : a < b) : x \in SUBSET (0..MaxT) \ {{}}}
        /\ im \in UNION {Incr(n) : n \in 0..NI}
        /\ \A k \in 1..Len(im) : InSpan(st, im[k]) => \E q \in 1..Len(st) : st[q] = im[k]
        /\ i = 1 /\ j = 1 /\ out = <<>>
Walk == /\ i <= Len(im) /\ j <= Len(st)
        /\ IF im[i] < st[j] THEN i' = i + 1 /\ j' = j /\ out' = out
           ELSE IF im[i] > st[j] THEN i' = i /\ j' = j + 1 /\ out' = out
           ELSE i' = i + 1 /\ j' = j /\ out' = Append(out, <<i, j>>)
        /\ UNCHANGED <<st, im>>
Next == Walk
Spec == Init /\ [][Next]_vars
Done == i > Len(im) \/ j > Len(st)
EveryImage == Done => Len(out) = Len(Wanted(st, im)) /\ \A k \in 1..Len(out) : im[out[k][1]] = Wanted(st, im)[k]
OwnState == \A k \in 1..Len(out) : st[out[k][2]] = im[out[k][1]]
OnceEach == \A a, b \in 1..Len(out) : a # b => out[a][1] # out[b][1]
=============================================================================
