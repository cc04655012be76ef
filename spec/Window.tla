------------------------------- MODULE Window -------------------------------
(* Reading a parsed dive: a sequential scan keeps a reading when its main     *)
(* clock lies in the closed window; a body velocity also needs its own clock  *)
(* to agree with the main clock to within a second.                           *)
EXTENDS Integers, Sequences, FiniteSets
Keep(r, s, e) == s <= r.t /\ r.t <= e /\ (r.kind = "velocity_body" => r.td - r.t < 1000 /\ r.t - r.td < 1000)
Rows(recs, kind, s, e) == SelectSeq(recs, LAMBDA r : r.kind = kind /\ Keep(r, s, e))
-----------------------------------------------------------------------------
CONSTANTS MaxT, N
VARIABLES recs, win, k, lists
Kinds == {"velocity_body", "depth"}
Init == /\ recs \in {q \in UNION {[1..n -> [t : 0..MaxT, td : {0, MaxT}, kind : Kinds]] : n \in 1..N} :
                       \A a, b \in DOMAIN q : a < b => q[a].t <= q[b].t}
        /\ win \in {w \in [s : 0..MaxT, e : 0..MaxT] : w.s <= w.e}
        /\ k = 0 /\ lists = [x \in Kinds |-> <<>>]
Next == /\ k < Len(recs) /\ k' = k + 1 /\ UNCHANGED <<recs, win>>
        /\ lists' = IF Keep(recs[k + 1], win.s, win.e) THEN [lists EXCEPT ![recs[k + 1].kind] = Append(@, recs[k + 1])] ELSE lists
Spec == Init /\ [][Next]_<<recs, win, k, lists>>
(* the scan delivers exactly the readings of the window, in time order        *)
Exact == k = Len(recs) => \A x \in Kinds : lists[x] = Rows(recs, x, win.s, win.e)
Ordered == \A x \in Kinds : \A a, b \in DOMAIN lists[x] : a < b => lists[x][a].t <= lists[x][b].t
(* readings outside the window have no influence                              *)
Inner == SelectSeq(recs, LAMBDA r : win.s <= r.t /\ r.t <= win.e)
Independent == \A x \in Kinds : Rows(Inner, x, win.s, win.e) = Rows(recs, x, win.s, win.e)
=============================================================================
