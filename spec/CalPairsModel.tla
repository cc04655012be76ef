---------------------------- MODULE CalPairsModel ----------------------------
EXTENDS CalPairs, TLC
CONSTANT N
VARIABLE P
Init == P \in [1..N -> {-1, 0, 20, 49} \X {-1, 0, 20}]
Next == UNCHANGED P
Spec == Init /\ [][Next]_P
\* the pairs are exactly the shots seen by both cameras, whichever images are missing
Exact == {<<Owner(P, 1, q[1]), Owner(P, 2, q[2])>> : q \in Pairs(Stamps(P, 1), Stamps(P, 2))} = {<<k, k>> : k \in Shots(P)}
\* an image belongs to at most one pair
OneToOne == \A a, b \in Pairs(Stamps(P, 1), Stamps(P, 2)) : a[2] = b[2] => a = b
=============================================================================
