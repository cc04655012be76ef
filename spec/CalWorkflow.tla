----------------------------- MODULE CalWorkflow -----------------------------
(* Command histories of auv_cal on one rig of cameras.  Every file remembers   *)
(* the version of the images it was computed from (0: the file is absent).     *)
(*   mono[s][c]  camera calibration of suffix s;  json[s][c]  its detections   *)
(*   stereo[s]   <<version of camera 1, ... of camera 2>> (empty: absent)      *)
(*   det         detections of the laser line;  laser[s]  laser calibration    *)
(* force: 0 none, 1 -F (overwrite results), 2 -FF (also the detections).       *)
EXTENDS Integers, Sequences, FiniteSets
(* one state record: [mono, json, stereo, det, laser]; one world record:       *)
(* [ver |-> version of the board images, enough, seen (boards visible),        *)
(*  lver, lenough (laser images)] with fields per camera                       *)
Absent == 0

\* each operator yields <<state, "ok"|"quit"|"fail", set of files written>>
RECURSIVE MonoFrom(_, _, _, _, _, _)
MonoFrom(st, w, s, f, cams, wr) ==
  IF cams = <<>> THEN <<st, "ok", wr>>
  ELSE LET c == cams[1]
           rest == SubSeq(cams, 2, Len(cams))
           detect == f = 2 \/ st.json[s][c] = Absent
           v == IF detect THEN w.ver[c] ELSE st.json[s][c]
       IN IF st.mono[s][c] # Absent /\ f = 0 THEN MonoFrom(st, w, s, f, rest, wr)
          ELSE IF ~w.enough[c] THEN <<st, "quit", wr>>
          ELSE IF detect /\ ~w.seen[c] THEN MonoFrom(st, w, s, f, rest, wr)       \* pattern not found: reported, nothing written
          ELSE MonoFrom([st EXCEPT !.json[s][c] = v, !.mono[s][c] = v], w, s, f, rest, wr \cup {<<"mono", s, c>>})
Mono(st, w, s, f, cams) == MonoFrom(st, w, s, f, cams, {})

Missing(st, cams) == \E i \in DOMAIN cams : st.mono[""][cams[i]] = Absent
Stereo(st, w, s, f, cams) ==
  IF st.stereo[s] # <<>> /\ f = 0 THEN <<st, "quit", {}>>
  ELSE IF Missing(st, cams) /\ s # "" THEN <<st, "quit", {}>>
  ELSE LET m == IF Missing(st, cams) THEN Mono(st, w, "", f, cams) ELSE <<st, "ok", {}>>
       IN IF m[2] # "ok" THEN m
          ELSE IF ~(\A i \in DOMAIN cams : w.enough[cams[i]]) THEN <<m[1], "quit", m[3]>>
          ELSE IF Missing(m[1], cams) \/ \E i \in DOMAIN cams : m[1].json[""][cams[i]] = Absent THEN <<m[1], "fail", m[3]>>
          ELSE <<[m[1] EXCEPT !.stereo[s] = [i \in DOMAIN cams |-> m[1].mono[""][cams[i]]]], "ok", m[3] \cup {<<"stereo", s>>}>>

Laser(st, w, s, f, cams) ==
  IF st.laser[s] # Absent /\ f = 0 THEN <<st, "quit", {}>>
  ELSE IF st.stereo[""] = <<>> /\ s # "" THEN <<st, "quit", {}>>
  ELSE LET m == IF st.stereo[""] = <<>> THEN Stereo(st, w, "", f, cams) ELSE <<st, "ok", {}>>
       IN IF m[2] # "ok" THEN m
          ELSE IF ~w.lenough THEN <<m[1], "ok", m[3]>>                            \* reported, nothing written
          ELSE LET v == IF f = 2 \/ m[1].det = Absent THEN w.lver ELSE m[1].det
               IN <<[m[1] EXCEPT !.det = v, !.laser[s] = v], "ok", m[3] \cup {<<"laser", s>>}>>
=============================================================================
