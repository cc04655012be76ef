--------------------------------- MODULE Koyo ---------------------------------
(* auv_nav convert koyo20rov_to_oplab: the ship's logs, the vehicle's compass *)
(* and the times of the images become tables of image poses.                  *)
(* Units: t ms, positions mm, angles 0.01 degree.                             *)
EXTENDS Trig, TLC

(* a log: records [t, n, e, d, h] in the order of the file.  The clock of the *)
(* logger may jump back: only records later than all before them count.       *)
RECURSIVE Later(_, _, _)
Later(log, i, top) == IF i > Len(log) THEN <<>>
                      ELSE IF log[i].t > top THEN <<log[i]>> \o Later(log, i + 1, log[i].t) ELSE Later(log, i + 1, top)
Forward(log) == Later(log, 1, -1)
RECURSIVE All(_, _)
All(logs, i) == IF i > Len(logs) THEN <<>> ELSE Forward(logs[i]) \o All(logs, i + 1)
ByTime(s) == SortSeq(s, LAMBDA x, y : x.t < y.t)
(* a reading of zero is a missing one: on the line between the readings       *)
(* around it, or the nearest one                                              *)
Fill(tr, i, f) ==
  IF tr[i][f] # 0 THEN tr[i][f]
  ELSE LET bef == {k \in 1..i : tr[k][f] # 0} aft == {k \in i..Len(tr) : tr[k][f] # 0}
       IN IF bef = {} /\ aft = {} THEN 0
          ELSE IF bef = {} THEN tr[MinOf(aft)][f]
          ELSE IF aft = {} THEN tr[MaxOf(bef)][f]
          ELSE LET p == tr[MaxOf(bef)] q == tr[MinOf(aft)] IN Lerp(tr[i].t, p.t, p[f], q.t, q[f])
Track(logs) == LET tr == ByTime(All(logs, 1)) IN [i \in DOMAIN tr |-> [tr[i] EXCEPT !.d = Fill(tr, i, "d"), !.h = Fill(tr, i, "h")]]

Within(tr, t) == tr # <<>> /\ tr[1].t <= t /\ t <= tr[Len(tr)].t
Aft(tr, t) == CHOOSE k \in DOMAIN tr : tr[k].t >= t /\ \A j \in 1..k - 1 : tr[j].t < t
Fore(tr, t) == LET k == Aft(tr, t) IN IF k = 1 THEN 1 ELSE k - 1
On(tr, t, f) == Lerp(t, tr[Fore(tr, t)].t, tr[Fore(tr, t)][f], tr[Aft(tr, t)].t, tr[Aft(tr, t)][f])
Att(rot, t) ==
  LET p == rot[Fore(rot, t)] q == rot[Aft(rot, t)]
  IN << On(rot, t, "x"), On(rot, t, "y"), (p.z + Lerp(t, p.t, 0, q.t, AngDiff(q.z, p.z, 36000))) % 36000 >>
NoArc(rot, t) == LET p == rot[Fore(rot, t)] q == rot[Aft(rot, t)] IN Abs(AngDiff(q.z, p.z, 36000)) > 17990
(* where a sensor is when the position and altitude are those of the DVL and  *)
(* the depth is that of the depth sensor: arms from either to the sensor      *)
Pose(tr, rot, t, dvl, dep) ==
  LET a == Att(rot, t) o == Rotate(a[1], a[2], a[3], dvl) z == Rotate(a[1], a[2], a[3], dep)
  IN [t |-> t, n |-> On(tr, t, "n") + o[1], e |-> On(tr, t, "e") + o[2], d |-> On(tr, t, "d") + z[3], h |-> On(tr, t, "h") - o[3], a |-> a]
(* the images that get a row, in order of time                                *)
Rows(tr, rot, images) == SelectSeq(ByTime(images), LAMBDA m : Within(tr, m.t) /\ Within(rot, m.t))
-----------------------------------------------------------------------------
(* Small model: two logs and a compass log grow record by record; a table is  *)
(* written from what there is, and refused or overwritten.                    *)
CONSTANTS Ts, Vs, MaxLog, MaxRun
VARIABLES logs, rot, disk, ver, forced
vars == <<logs, rot, disk, ver, forced>>
Rec(t, v) == [t |-> t, n |-> v, e |-> 0, d |-> v, h |-> 5]
MInit == logs = <<<<>>, <<>>>> /\ rot = <<>> /\ disk = {} /\ ver = 0 /\ forced = FALSE /\ att = <<0, 0, 0>>
Log == \E i \in 1..2, t \in Ts, v \in Vs : Len(logs[i]) < MaxLog /\ logs' = [logs EXCEPT ![i] = Append(@, Rec(2 * t + i, v))] /\ UNCHANGED <<rot, disk, ver, forced>>
Turn == \E z \in {1000, 35900} : Len(rot) < 2 /\ rot' = Append(rot, [t |-> 2 + 4 * Len(rot), x |-> 0, y |-> 0, z |-> z]) /\ UNCHANGED <<logs, disk, ver, forced>>
Key == <<MinOf({Track(logs)[1].t, rot[1].t}), MaxOf({Track(logs)[Len(Track(logs))].t, rot[Len(rot)].t})>>
Write == \E f \in BOOLEAN :
  /\ ver < MaxRun /\ logs # <<<<>>, <<>>>> /\ rot # <<>> /\ forced' = f /\ ver' = ver + 1
  /\ LET k == Key old == {x \in disk : x[1] = k}
     IN disk' = IF old # {} /\ ~f THEN disk ELSE (disk \ old) \cup {<<k, ver + 1>>}
  /\ UNCHANGED <<logs, rot>>
MNext == (Log \/ Turn \/ Write) /\ UNCHANGED att
MSpec == MInit /\ [][MNext]_<<vars, att>>
T == Track(logs)
InTime == \A i \in 2..Len(T) : T[i - 1].t <= T[i].t
(* the first record of a log always counts, and none that is kept goes back   *)
FirstKept == \A i \in 1..2 : logs[i] # <<>> => Forward(logs[i])[1] = logs[i][1]
Idempotent == \A i \in 1..2 : Forward(Forward(logs[i])) = Forward(logs[i])
(* filling in keeps what was read, and stays within what was read             *)
Readings == UNION {{Forward(logs[i])[k].d : k \in DOMAIN Forward(logs[i])} : i \in 1..2} \ {0}
Filled == \A i \in DOMAIN T : Readings = {} \/ (MinOf(Readings) <= T[i].d /\ T[i].d <= MaxOf(Readings))
Covered == \A t \in 0..12 : Within(T, t) => LET v == On(T, t, "d") IN Readings = {} \/ (MinOf(Readings) <= v /\ v <= MaxOf(Readings))
(* turning through north stays on the short side                              *)
Short == \A t \in 0..12 : Within(rot, t) /\ Len(rot) = 2 =>
           Abs(AngDiff(Att(rot, t)[3], rot[1].z, 36000)) <= Abs(AngDiff(rot[2].z, rot[1].z, 36000))
Protected == [][~forced' => disk \subseteq disk']_vars
=============================================================================
