------------------------------- MODULE Cursor -------------------------------
(* Two time-ordered streams are joined by a moving cursor: for every query    *)
(* the cursor stops at the first sample that is not earlier.  The specification*)
(* shows that this finds the bracketing samples of every query that lies      *)
(* within the samples, for every interleaving of the two streams.             *)
EXTENDS Num
CONSTANTS MaxT, NS, NQ
VARIABLES smp, qry, i, j, hit
vars == <<smp, qry, i, j, hit>>

Sorted(s, strict) == \A a, b \in DOMAIN s : a < b => IF strict THEN s[a] < s[b] ELSE s[a] <= s[b]
Init == /\ smp \in {s \in UNION {[1..n -> 0..MaxT] : n \in 2..NS} : Sorted(s, TRUE)}
        /\ qry \in {s \in UNION {[1..n -> 0..MaxT] : n \in 1..NQ} : Sorted(s, FALSE)}
        /\ i = 1 /\ j = 1 /\ hit = <<>>

Move == i <= Len(qry) /\ j < Len(smp) /\ smp[j] < qry[i] /\ j' = j + 1 /\ UNCHANGED <<smp, qry, i, hit>>
Take == i <= Len(qry) /\ ~(j < Len(smp) /\ smp[j] < qry[i])
        /\ hit' = Append(hit, j) /\ i' = i + 1 /\ UNCHANGED <<smp, qry, j>>
Next == Move \/ Take
Spec == Init /\ [][Next]_vars

(* the declarative meaning: the bracket of q                                  *)
Bracket(s, q) == CHOOSE b \in 2..Len(s) : s[b - 1] <= q /\ q <= s[b] /\ \A c \in 2..(b - 1) : s[c] < q
Inside(s, q) == s[1] <= q /\ q <= s[Len(s)]
Found == \A k \in DOMAIN hit : Inside(smp, qry[k]) =>
            IF qry[k] = smp[1] THEN hit[k] = 1 ELSE hit[k] = Bracket(smp, qry[k])
OnePerQuery == Len(hit) = i - 1
=============================================================================
