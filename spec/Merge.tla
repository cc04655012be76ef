------------------------------- MODULE Merge -------------------------------
(* Merging dives: dives are parsed one after the other, then their navigation *)
(* files are joined in the order given; the origin of the first is kept, a    *)
(* dive with another origin stops the merge before anything is written.       *)
(* Rows: <<kind, day, ms, value, files>>.                                     *)
EXTENDS Num, TLC
TLeq(a, b) == a[2] < b[2] \/ (a[2] = b[2] /\ a[3] <= b[3])
Tag(name, row) == <<row[1], row[2], row[3], row[4], [i \in DOMAIN row[5] |-> name \o "/" \o row[5][i]]>>
TagAll(name, rows) == [i \in DOMAIN rows |-> Tag(name, rows[i])]
RECURSIVE Flat(_)
Flat(ss) == IF ss = <<>> THEN <<>> ELSE Head(ss) \o Flat(Tail(ss))
Bag(x) == [v \in {x[i] : i \in DOMAIN x} |-> Cardinality({i \in DOMAIN x : x[i] = v})]
\* m is a merged file of the dives ds = <<name, origin, rows>>
IsMerge(m, ds) == LET all == Flat([i \in DOMAIN ds |-> TagAll(ds[i].name, ds[i].rows)])
                  IN Len(m) = Len(all) /\ Bag(m) = Bag(all)
Ordered(m) == \A i \in 1..(Len(m) - 1) : TLeq(m[i], m[i + 1])
SameOrigin(ds) == \A i \in DOMAIN ds : ds[i].origin = ds[1].origin

-----------------------------------------------------------------------------
CONSTANTS NDives, MaxRows, MaxT
VARIABLES ds, i, joined, out, refused
vars == <<ds, i, joined, out, refused>>
Names == <<"a", "b", "c">>
RowsOf(n) == {[k \in 1..Len(t) |-> <<"x", 0, t[k], k, IF k = 1 THEN <<"f">> ELSE <<>>>>] :
               t \in UNION {[1..m -> 0..MaxT] : m \in 0..n}}
Init == /\ ds \in [1..NDives -> [name : {"?"}, origin : {1, 2}, rows : RowsOf(MaxRows)]]
        /\ i = 0 /\ joined = <<>> /\ out = <<>> /\ refused = FALSE
D(k) == [ds[k] EXCEPT !.name = Names[k]]
DS == [k \in 1..NDives |-> D(k)]
Join == /\ ~refused /\ i < NDives /\ i' = i + 1
        /\ IF D(i + 1).origin = D(1).origin
           THEN joined' = joined \o TagAll(D(i + 1).name, D(i + 1).rows) /\ UNCHANGED refused
           ELSE refused' = TRUE /\ UNCHANGED joined
        /\ UNCHANGED <<ds, out>>
RECURSIVE Insert(_, _)
Insert(s, r) == IF s = <<>> THEN <<r>> ELSE IF TLeq(s[Len(s)], r) THEN Append(s, r)
                ELSE Append(Insert(SubSeq(s, 1, Len(s) - 1), r), s[Len(s)])
RECURSIVE Interlace(_)
Interlace(s) == IF s = <<>> THEN <<>> ELSE Insert(Interlace(SubSeq(s, 1, Len(s) - 1)), s[Len(s)])
Write == ~refused /\ i = NDives /\ out = <<>> /\ out' = Interlace(joined) /\ UNCHANGED <<ds, i, joined, refused>>
Next == Join \/ Write
Spec == Init /\ [][Next]_vars
Right == out # <<>> => SameOrigin(DS) /\ IsMerge(out, DS) /\ Ordered(out)
RefusedRight == refused => ~SameOrigin(DS) /\ out = <<>>
=============================================================================
