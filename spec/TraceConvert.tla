----------------------------- MODULE TraceConvert -----------------------------
(* Runs of auv_nav convert.  op:                                              *)
(*  "new"   a new output folder                                               *)
(*  "acfr"  poses of a vehicle file (veh), a stereo file (rig) and laser      *)
(*          samples; want = outputs asked for; after = tables found           *)
(*  "oplab" tables (veh, cam1, cam2) and sensor records; after = files found  *)
(*  "hybis" records and images; after = table found                           *)
EXTENDS TraceBase
C == INSTANCE Convert WITH Outs <- {}, Kinds <- {}, MaxRun <- 0, MaxRec <- 0, out <- <<>>, ver <- 0, recs <- <<>>, st <- <<>>, lines <- <<>>, forced <- FALSE
VARIABLE src
N(x, y, tol) == C!Near(x, y, tol)
At(held, k) == held[CHOOSE i \in DOMAIN held : held[i].k = k].v
Has(held, k) == \E i \in DOMAIN held : held[i].k = k
Keys(held) == {held[i].k : i \in DOMAIN held}
Put(held, k, v) == Append(SelectSeq(held, LAMBDA x : x.k # k), [k |-> k, v |-> v])
RECURSIVE PutAll(_, _, _)
PutAll(held, ks, v) == IF ks = <<>> THEN held ELSE PutAll(Put(held, ks[1], v), Tail(ks), v)
(* --- acfr_to_oplab -------------------------------------------------------- *)
Centre(v, rows) == Len(rows) = Len(v.veh) /\ \A i \in DOMAIN rows : C!Same(rows[i], C!VehicleRow(v.veh[i]), 1)
Cam(v, rows, side) == Len(rows) = Len(v.rig) /\ \A i \in DOMAIN rows : C!Same(rows[i], C!RigRow(v.rig[i]), 1) /\ rows[i].name = (IF side = 1 THEN v.rig[i].left ELSE v.rig[i].right)
Laser(v, rows) ==
  LET track == [i \in DOMAIN v.rig |-> C!RigRow(v.rig[i])]
  IN /\ Len(rows) = Len(v.laser)
     /\ \A i \in DOMAIN rows : /\ rows[i].name = v.laser[i].name /\ rows[i].t = v.laser[i].t
                               /\ C!In(track, rows[i].t) /\ ~C!Half(track, rows[i].t) => C!Same(rows[i], C!Between(track, rows[i].t), 3)
Want(e) == (IF e.v.veh # <<>> THEN <<"centre">> ELSE <<>>) \o (IF e.v.rig # <<>> THEN <<"cams">> ELSE <<>>) \o (IF e.v.laser # <<>> THEN <<"laser">> ELSE <<>>)
After(e, held) ==
  IF e.op = "acfr" THEN PutAll(held, C!Made(Keys(held), Want(e), e.force), e.v)
  ELSE IF Has(held, e.key) /\ ~e.force THEN held ELSE Put(held, e.key, e.v)
Stops(e, held) == IF e.op = "acfr" THEN C!Refused(Keys(held), Want(e), e.force) ELSE Has(held, e.key) /\ ~e.force
Acfr(e, held) ==
  [ centre_as_vehicle_poses |-> IF Has(held, "centre") THEN e.after.centre # <<>> /\ Centre(At(held, "centre"), e.after.centre) ELSE e.after.centre = <<>>,
    cameras_as_stereo_poses |-> IF Has(held, "cams") THEN Cam(At(held, "cams"), e.after.left, 1) /\ Cam(At(held, "cams"), e.after.right, 2) ELSE e.after.left = <<>> /\ e.after.right = <<>>,
    lasers_between_stereo_poses |-> IF Has(held, "laser") THEN Laser(At(held, "laser"), e.after.laser) ELSE e.after.laser = <<>>,
    nothing_else |-> e.after.other = <<>> ]
(* --- oplab_to_acfr -------------------------------------------------------- *)
RadNear(rec, rad) == /\ \A k \in 1..2 : N(rad[k], C!Rad(rec[k]), 2)
                     /\ C!Abs(C!AngDiff(rad[3], C!Rad(rec[3]), 628319)) <= 2
Body(r, p) == /\ r.t = p.t /\ N(r.lat, p.lat, 1) /\ N(r.lon, p.lon, 1) /\ N(r.n, p.n, 1) /\ N(r.e, p.e, 1) /\ N(r.d, p.d, 1) /\ N(r.h, p.h, 1) /\ RadNear(p.a, r.rad)
Vehicle(v, f) == Len(f) = Len(v.veh) /\ \A i \in DOMAIN f : f[i].id = i - 1 /\ Body(f[i], v.veh[i])
Stereo(v, f) == Len(f) = Len(v.cam1) /\ \A i \in DOMAIN f : f[i].id = i - 1 /\ Body(f[i], v.cam1[i]) /\ f[i].left = v.cam1[i].base /\ f[i].right = v.cam2[i].base
Hr(u) == IF u.sr > u.d THEN 1 ELSE 0
Line(v, w, x) ==
  LET r == v.recs[w[2]]
  IN /\ x.kind = w[1] /\ x.t = r.t
     /\ w[1] = "ori" => N(x.a[1], r.a[1], 1) /\ N(x.a[2], r.a[2], 1) /\ N(x.a[3], r.a[3], 1)
     /\ w[1] = "vel" => /\ \A k \in 1..3 : N(x.v[k], r.v[k], 1)
                        /\ N(x.h, v.recs[w[3]].h, 1)
                        /\ \A k \in 1..3 : N(x.a[k], v.recs[w[4]].a[k], 1)
     /\ w[1] = "dep" => N(x.d, r.d, 1)
     /\ w[1] = "usbl" => /\ N(x.n, r.n, 1) /\ N(x.e, r.e, 1) /\ N(x.d, r.d, 1) /\ N(x.sr, r.sr, 1) /\ N(x.sn, r.sn, 1) /\ N(x.se, r.se, 1)
                         /\ IF r.sr > r.d THEN N(x.hr * x.hr + r.d * r.d, r.sr * r.sr, 2 * x.hr + 4) ELSE x.hr = -10
     /\ w[1] = "img" => x.name = r.name
Combined(v, f) == LET w == C!Lines([i \in DOMAIN v.recs |-> v.recs[i].kind])
                  IN Len(w) = Len(f) /\ \A i \in DOMAIN f : Line(v, w[i], f[i])
Oplab(e, held) ==
  IF ~Has(held, e.key) THEN [ nothing_written |-> e.after.veh = <<>> /\ e.after.stereo = <<>> ]
  ELSE LET v == At(held, e.key)
       IN [ origin_given |-> e.after.origin = <<v.origin, v.origin>>,
            vehicle_poses |-> Vehicle(v, e.after.veh), stereo_poses |-> Stereo(v, e.after.stereo),
            combined_log |-> Combined(v, e.after.lines), mission_origin |-> e.after.cfg = v.origin ]
(* --- hybis_to_oplab: images between the records around them; a zero depth   *)
(* or altitude is a missing reading                                           *)
Fill(rs, i, f) == IF rs[i][f] # 0 \/ i = 1 \/ i = Len(rs) THEN rs[i][f] ELSE C!Lerp(rs[i].t, rs[i - 1].t, rs[i - 1][f], rs[i + 1].t, rs[i + 1][f])
Track(v) == [i \in DOMAIN v.recs |-> [v.recs[i] EXCEPT !.h = Fill(v.recs, i, "h"), !.d = Fill(v.recs, i, "d")]]
Img(v, tr, k, r) ==
  LET m == v.images[k]
  IN /\ r.name = m.name /\ r.t = m.t /\ r.id = k - 1
     /\ C!In(tr, m.t) /\ ~C!Half(tr, m.t) =>
          LET p == C!Between(tr, m.t)
          IN /\ C!Same(r, p, 4) /\ N(r.north, ((p.lat - v.ref[1]) * v.scale[1]) \div 1000, 30) /\ N(r.east, ((p.lon - v.ref[2]) * v.scale[2]) \div 1000, 30)
Hybis(e, held) ==
  IF ~Has(held, e.key) THEN [ nothing_written |-> e.after.rows = <<>> ]
  ELSE LET v == At(held, e.key) tr == Track(v)
       IN [ an_entry_per_image |-> Len(e.after.rows) = Len(v.images),
            images_between_records |-> Len(e.after.rows) = Len(v.images) => \A k \in DOMAIN v.images : Img(v, tr, k, e.after.rows[k]) ]
(* ------------------------------------------------------------------------- *)
Clauses(e) ==
  LET held == After(e, src)
  IN [ accepted_or_refused |-> e.status = (IF Stops(e, src) THEN "quit" ELSE "ok") ]
     @@ (CASE e.op = "acfr" -> Acfr(e, held) [] e.op = "oplab" -> Oplab(e, held) [] e.op = "hybis" -> Hybis(e, held))
Init == TraceInit /\ src = <<>>
Next == l <= Len(Trace) /\ IF Ev.op = "new" THEN Consume({}) /\ src' = <<>> ELSE Consume(Violated(Clauses(Ev))) /\ src' = After(Ev, src)
Spec == Init /\ [][Next]_<<tvars, src>>
=============================================================================
