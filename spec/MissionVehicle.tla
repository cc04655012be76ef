---------------------------- MODULE MissionVehicle ----------------------------
(* A mission description names sensors and cameras, each mounted at a frame   *)
(* of the vehicle description.  Given: records with only the fields the user  *)
(* wrote; values are strings.                                                 *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt
Sensors == {"velocity", "orientation", "depth", "altitude", "usbl"}
DefaultFrame(s) == CASE s \in {"velocity", "altitude"} -> "dvl" [] s = "orientation" -> "ins" [] s = "depth" -> "depth" [] s = "usbl" -> "usbl" [] OTHER -> ""
Default(s, f) == CASE f \in {"timezone", "timeoffset", "std_factor", "std_offset", "label", "field_id"} -> "0.0"
                   [] f \in {"apply_depth_filter", "apply_north_east_filter"} -> "True"
                   [] f = "origin" -> DefaultFrame(s)
                   [] f = "topic" -> "None"
                   [] OTHER -> ""
Zone(z) == CASE z \in {"utc", "UTC"} -> "0.0" [] z \in {"jst", "JST"} -> "9.0" [] z \in {"cet", "CET"} -> "1.0" [] OTHER -> z
Value(given, s, f) == IF f \in DOMAIN given THEN (IF f = "timezone" THEN Zone(given[f]) ELSE given[f]) ELSE Default(s, f)
Frame(given, s) == Value(given, s, "origin")
CameraFrame(cams, i) == IF "origin" \in DOMAIN cams[i] THEN cams[i].origin ELSE cams[i].name
FramesOk(given, cams, frames) ==
   /\ \A s \in DOMAIN given \cap Sensors : Frame(given[s], s) \in frames
   /\ \A i \in DOMAIN cams : CameraFrame(cams, i) \in frames
=============================================================================
