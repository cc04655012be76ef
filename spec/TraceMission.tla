----------------------------- MODULE TraceMission -----------------------------
EXTENDS TraceBase
M == INSTANCE MissionVehicle
SetOf(s) == {s[i] : i \in DOMAIN s}
Six == {"surge_m", "sway_m", "heave_m", "roll_deg", "pitch_deg", "yaw_deg"}
Ok(e) == /\ M!FramesOk(e.given, e.cameras, SetOf(e.frames)) /\ SetOf(e.payloads) \subseteq SetOf(e.vpayloads)
Clauses(e) ==
  IF ~Ok(e) THEN (IF e.status = "ok" THEN {"unknown frame is refused"} ELSE {})
  ELSE IF e.status # "ok" THEN {"accepted"}
  ELSE Violated(
  [entries |-> \A s \in DOMAIN e.given : \A f \in DOMAIN e.loaded[s] : e.loaded[s][f] = M!Value(e.given[s], s, f),
   absent |-> \A s \in SetOf(e.absent) : s \notin DOMAIN e.loaded,
   cameras |-> /\ Len(e.camloaded) = Len(e.cameras)
               /\ \A i \in DOMAIN e.cameras : /\ e.camloaded[i].name = e.cameras[i].name /\ e.camloaded[i].path = e.cameras[i].path
                                              /\ e.camloaded[i].origin = M!CameraFrame(e.cameras, i),
   offsets |-> \A s \in SetOf(e.frames) : s \in DOMAIN e.offsets => \A q \in Six : e.offsets[s][q] = e.vehicle[s][q],
   camera_offsets |-> \A i \in DOMAIN e.cameras : \A q \in Six : e.camoffsets[i][q] = e.vehicle[M!CameraFrame(e.cameras, i)][q],
   payload_offsets |-> \A p \in SetOf(e.payloads) : \A q \in Six : e.payoffsets[p][q] = e.vehicle[p][q],
   copied |-> e.copied,
   written |-> e.written])
Init == TraceInit
Next == Consume(Clauses(Ev))
Spec == Init /\ [][Next]_tvars
=============================================================================
