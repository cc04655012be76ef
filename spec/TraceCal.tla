------------------------------- MODULE TraceCal -------------------------------
(* Replay of auv_cal histories.  Versions are recognised from the values in    *)
(* the files (focal lengths, laser planes); marks are contents, which differ   *)
(* between any two writings of the same file.                                  *)
EXTENDS TraceBase
W == INSTANCE CalWorkflow
VARIABLE cur
vars == <<l, bad, cur>>
SetOf(s) == {s[i] : i \in DOMAIN s}
\* marks: sequence of <<kind, suffix, camera or "", mark>>
Marks(o) == SetOf(o.marks)
Rewritten(o) == {<<m[1], m[2], m[3]>> : m \in Marks(o) \ Marks(cur)}
Want(r) == {IF x[1] = "mono" THEN x ELSE <<x[1], x[2], "">> : x \in r[3]}
Gone(o) == {<<m[1], m[2], m[3]>> : m \in Marks(cur)} \ {<<m[1], m[2], m[3]>> : m \in Marks(o)}
St(o) == [mono |-> o.mono, json |-> o.json, stereo |-> o.stereo, det |-> o.det, laser |-> o.laser]
Res(e) == LET s == St(cur) IN
  CASE e.op = "mono" -> W!Mono(s, e.world, e.sfx, e.force, e.cams)
    [] e.op = "stereo" -> W!Stereo(s, e.world, e.sfx, e.force, e.cams)
    [] OTHER -> W!Laser(s, e.world, e.sfx, e.force, e.cams)
Clauses(e) ==
  LET r == Res(e) o == e.obs x == r[1]
  IN [outcome |-> (r[2] = "ok") = (e.status = "ok"),
      refusal_is_explained |-> r[2] = "quit" => e.status = "quit",
      rewrites |-> Rewritten(o) = Want(r) /\ Gone(o) = {},
      cameras |-> o.mono = x.mono /\ o.json = x.json,
      stereo |-> o.stereo = x.stereo,
      laser |-> o.laser = x.laser /\ o.det = x.det,
      inputs_untouched |-> e.inputs]
Next ==
  \/ /\ Ev.op = "start" /\ Consume({}) /\ cur' = Ev.obs
  \/ /\ Ev.op = "env" /\ Consume({}) /\ cur' = Ev.obs
  \/ /\ Ev.op \in {"mono", "stereo", "laser"} /\ Consume(Violated(Clauses(Ev))) /\ cur' = Ev.obs
  \/ /\ Ev.op = "noconf" /\ Consume(Violated([asks |-> Ev.status = "quit", default |-> Ev.default, nothing_else |-> Marks(Ev.obs) = Marks(cur), inputs_untouched |-> Ev.inputs])) /\ cur' = Ev.obs
Spec == TraceInit /\ cur = <<>> /\ [][l <= Len(Trace) /\ Next]_vars
=============================================================================
