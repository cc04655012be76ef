---------------------------- MODULE ImageSelection ----------------------------
(* Which images of a list of dives take part, and with what altitude.         *)
(* A row of a pose table: [id, alt (mm, -1 unknown), there, listed].          *)
EXTENDS Num, SequencesExt
CONSTANTS Alts, MaxRows, Lo, Hi
VARIABLES dives, d, i, imgs, alts
vars == <<dives, d, i, imgs, alts>>
Pick(r, lo, hi) == r.alt >= 0 /\ r.there /\ r.listed /\ lo < r.alt /\ r.alt < hi
Selected(rows, lo, hi) == SelectSeq(rows, LAMBDA r : Pick(r, lo, hi))
RECURSIVE Union(_, _, _)
Union(ds, lo, hi) == IF ds = <<>> THEN <<>> ELSE Selected(ds[1], lo, hi) \o Union(Tail(ds), lo, hi)

\* the scan: one row of one dive at a time, lists of images and altitudes kept in step
Row == [id : {1}, alt : Alts \cup {-1}, there : BOOLEAN, listed : BOOLEAN]
Tables == UNION {[1..n -> Row] : n \in 0..MaxRows}
Init == dives \in [1..2 -> Tables] /\ d = 1 /\ i = 1 /\ imgs = <<>> /\ alts = <<>>
Scan == /\ d <= 2 /\ i <= Len(dives[d])
        /\ LET r == dives[d][i] IN IF Pick(r, Lo, Hi) THEN imgs' = Append(imgs, <<d, i>>) /\ alts' = Append(alts, r.alt) ELSE UNCHANGED <<imgs, alts>>
        /\ i' = i + 1 /\ UNCHANGED <<dives, d>>
NextDive == d <= 2 /\ i > Len(dives[d]) /\ d' = d + 1 /\ i' = 1 /\ UNCHANGED <<dives, imgs, alts>>
Next == Scan \/ NextDive
Spec == Init /\ [][Next]_vars
InStep == Len(imgs) = Len(alts) /\ \A k \in 1..Len(imgs) : alts[k] = dives[imgs[k][1]][imgs[k][2]].alt
Complete == d = 3 => alts = [k \in 1..Len(Union(dives, Lo, Hi)) |-> Union(dives, Lo, Hi)[k].alt]
Within == \A k \in 1..Len(alts) : Lo < alts[k] /\ alts[k] < Hi
=============================================================================
