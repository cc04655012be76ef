-------------------------------- MODULE Config --------------------------------
(* Which configuration correct_images works with.                              *)
(* A dive: mission format, camera definitions in the raw and the configuration *)
(* folder, one correction file per suffix in the configuration folder.         *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS Formats,      \* image formats in use
          Systems,      \* set of camera definitions [system, cams]
          Files,        \* set of correction files, as written
          Marks, Dives, MaxSteps
None == [nothing |-> TRUE]
\* ---------------------------------------------------------------- resolution
DefaultCam == [acfr_standard |-> "ts1/SSK17-01", seaxerocks_3 |-> "ae2000/YK17-23C", biocam |-> "as6/DY109", biocam4000_15c |-> "alr/jc220",
               hybis |-> "hybis", ntnu_stereo |-> "ntnu_stereo/tautra21", stereo_gopro |-> "smarty200/stereo_gopro", voyis |-> "smarty200/voyis",
               rosbag |-> "rosbag/grassmap"]
DefaultConf == [acfr_standard |-> "acfr", seaxerocks_3 |-> "sx3", biocam |-> "biocam", biocam4000_15c |-> "biocam4000_15c",
                hybis |-> "hybis", ntnu_stereo |-> "ntnu_stereo", stereo_gopro |-> "stereo_gopro", voyis |-> "voyis", rosbag |-> "rosbag"]
Known(f) == f \in DOMAIN DefaultCam
\* which camera definition: the configuration folder wins over the raw folder, the default of the format comes last
Source(has_cfg, has_raw, f) == IF has_cfg THEN "config" ELSE IF has_raw THEN "raw" ELSE IF Known(f) THEN "default" ELSE "missing"
\* ---------------------------------------------------------------- contents
Methods == {"manual_balance", "colour_correction"}
Metrics == {"uniform", "altitude", "depth_map", "none"}
Absent == "absent"
Valid(y) == y.version # Absent /\ y.method \in Methods /\ y.metric \in Metrics /\ y.form \in {"new", "old"}
Types == {"grayscale", "rgb", "bgr", "rggb", "grbg", "bggr", "gbrg"}
CamValid(c) == c.system # Absent /\ \A i \in DOMAIN c.cams : c.cams[i].type \in Types
Or(v, default) == IF v = Absent THEN default ELSE v
Camera(c) == [name |-> c.name, parse |-> Or(c.parse, "none"), process |-> Or(c.process, "none"), brightness |-> Or(c.brightness, "30"), contrast |-> Or(c.contrast, "3"),
              sub |-> Or(c.sub, "0 0 0"), gain |-> Or(c.gain, "1 0 0;0 1 0;0 0 1")]
Decode(y) == [method |-> y.method, metric |-> IF y.metric = "none" THEN "uniform" ELSE y.metric, path |-> y.path,
              parse |-> y.parse, process |-> IF y.form = "old" THEN y.parse ELSE y.process,
              smoothing |-> y.smoothing, window |-> y.window, undistort |-> y.undistort, comp |-> y.comp,
              cams |-> [i \in DOMAIN y.cams |-> Camera(y.cams[i])]]
Names(c) == [i \in DOMAIN c.cams |-> c.cams[i].name]
\* dives may be parsed together when what shapes the parameters agrees; targets, limits and lists stay per dive
Equivalent(a, b) == a.method = b.method /\ a.metric = b.metric /\ a.smoothing = b.smoothing /\ a.window = b.window /\ Names(a) = Names(b)
First(c, name) == CHOOSE i \in DOMAIN c.cams : c.cams[i].name = name /\ \A j \in DOMAIN c.cams : c.cams[j].name = name => i <= j
Has(c, name) == \E i \in DOMAIN c.cams : c.cams[i].name = name
\* what a corrector of camera `cam' (a definition) works with, for a dive with configuration c
Use(mode, cam, c) ==
  LET k == c.cams[First(c, cam.name)]
      colour == c.method = "colour_correction"
  IN [mode |-> mode, cam |-> cam.name, type |-> cam.type, bits |-> cam.bits, method |-> c.method, metric |-> c.metric, path |-> c.path, parse |-> c.parse, process |-> c.process,
      smoothing |-> c.smoothing, window |-> c.window, undistort |-> c.undistort, comp |-> c.comp,
      list |-> IF mode = "parse" THEN k.parse ELSE k.process,
      brightness |-> IF colour THEN k.brightness ELSE "", contrast |-> IF colour THEN k.contrast ELSE "",
      sub |-> IF colour THEN "" ELSE k.sub, gain |-> IF colour THEN "" ELSE k.gain]
RECURSIVE Flat(_)
Flat(s) == IF s = <<>> THEN <<>> ELSE s[1] \o Flat(Tail(s))
\* cams: definition of the (first) dive, confs: one per dive; a camera the file does not name is left out
Uses(mode, cams, confs) ==
  Flat([i \in DOMAIN cams |-> IF Has(confs[1], cams[i].name) /\ (mode = "parse" \/ cams[i].images)
                              THEN [d \in DOMAIN confs |-> [u |-> Use(mode, cams[i], confs[d]), d |-> d]] ELSE <<>>])
\* ---------------------------------------------------------------- state machine
VARIABLES fmt,     \* dive -> image format, or "" without mission
          raw, cfg,\* dive -> camera definition or None
          files,   \* dive -> suffix -> file or None
          mine,    \* ghost: what the user wrote last
          last,    \* what the last command worked with
          n
vars == <<fmt, raw, cfg, files, mine, last, n>>
DefSystem(f) == CHOOSE s \in Systems : s.system = f /\ s.default
DefFile(f) == CHOOSE y \in Files : y.owner = f
CamOf(d) == CASE Source(cfg[d] # None, raw[d] # None, fmt[d]) = "config" -> cfg[d]
              [] Source(cfg[d] # None, raw[d] # None, fmt[d]) = "raw" -> raw[d]
              [] Source(cfg[d] # None, raw[d] # None, fmt[d]) = "default" -> DefSystem(fmt[d])
              [] OTHER -> None
FileOf(d, s) == IF files[d][s] = None THEN DefFile(fmt[d]) ELSE files[d][s]
Loads(d, s) == fmt[d] # "" /\ CamOf(d) # None /\ CamValid(CamOf(d)) /\ CamOf(d).system = fmt[d] /\ Valid(FileOf(d, s))
Nothing == [ok |-> FALSE, uses |-> <<>>, dives |-> <<>>, s |-> ""]
Init == /\ fmt \in [Dives -> Formats \cup {""}]
        /\ raw = [d \in Dives |-> None] /\ cfg = [d \in Dives |-> None]
        /\ files = [d \in Dives |-> [s \in Marks |-> None]] /\ mine = files
        /\ last = Nothing /\ n = 0
EditCam == \E d \in Dives : \E c \in Systems \cup {None} : \/ raw' = [raw EXCEPT ![d] = c] /\ UNCHANGED cfg
                                                           \/ cfg' = [cfg EXCEPT ![d] = c] /\ UNCHANGED raw
EditFile == \E d \in Dives, s \in Marks, y \in Files \cup {None} : files' = [files EXCEPT ![d][s] = y] /\ mine' = [mine EXCEPT ![d][s] = y]
\* dives whose camera definition and format agree get their correction file
Fill(ds, s, upto) == [d \in Dives |-> IF \E i \in 1..upto : ds[i] = d THEN [files[d] EXCEPT ![s] = FileOf(d, s)] ELSE files[d]]
Run(mode, ds, s) ==
  LET good(d) == fmt[d] # "" /\ CamOf(d) # None /\ CamValid(CamOf(d)) /\ CamOf(d).system = fmt[d]
      upto == IF \E i \in DOMAIN ds : ~Loads(ds[i], s) THEN CHOOSE i \in DOMAIN ds : ~Loads(ds[i], s) /\ \A j \in 1..(i - 1) : Loads(ds[j], s) ELSE Len(ds)
      fill == IF good(ds[upto]) THEN upto ELSE upto - 1
      all == \A i \in DOMAIN ds : Loads(ds[i], s)
      conf(i) == Decode(FileOf(ds[i], s))
      agree == \A i \in DOMAIN ds : CamOf(ds[i]).system = CamOf(ds[1]).system /\ Equivalent(conf(1), conf(i))
  IN /\ files' = Fill(ds, s, fill)
     /\ last' = IF all /\ agree THEN [ok |-> TRUE, uses |-> Uses(mode, CamOf(ds[1]).cams, [i \in DOMAIN ds |-> conf(i)]), dives |-> ds, s |-> s] ELSE Nothing
Orders == {<<d>> : d \in Dives} \cup {<<d, e>> : d, e \in Dives}
Next == /\ n < MaxSteps /\ n' = n + 1
        /\ \/ EditCam /\ last' = Nothing /\ UNCHANGED <<fmt, files, mine>>
           \/ EditFile /\ last' = Nothing /\ UNCHANGED <<fmt, raw, cfg>>
           \/ \E s \in Marks : /\ \/ \E ds \in Orders : Run("parse", ds, s)
                                     \/ \E d \in Dives : Run("process", <<d>>, s)
                                  /\ UNCHANGED <<fmt, raw, cfg, mine>>
Spec == Init /\ [][Next]_vars
\* ---------------------------------------------------------------- properties
\* what the user wrote is never changed by a command
Kept == \A d \in Dives, s \in Marks : mine[d][s] # None => files[d][s] = mine[d][s]
\* a file the user did not write is the default of the format of its own dive
Seeded == \A d \in Dives, s \in Marks : mine[d][s] = None /\ files[d][s] # None => files[d][s] = DefFile(fmt[d])
\* what was used is what the files on disk say, for every dive its own
InForce == last.ok => \A k \in DOMAIN last.uses :
             LET d == last.dives[last.uses[k].d]
                 u == last.uses[k].u
             IN files[d][last.s] # None /\ LET c == Decode(files[d][last.s]) IN Has(c, u.cam) /\ u.metric = c.metric /\ u.parse = c.parse /\ u.process = c.process
                                                         /\ (u.brightness # "" => u.brightness = c.cams[First(c, u.cam)].brightness)
\* never with cameras of another format, never two formats together
OneFormat == last.ok => \A i \in DOMAIN last.dives : CamOf(last.dives[i]).system = fmt[last.dives[i]] /\ fmt[last.dives[i]] = fmt[last.dives[1]]
\* no parameters are shared between dives that disagree on what shapes them
Shared == last.ok => \A j, k \in DOMAIN last.uses : last.uses[j].u.cam = last.uses[k].u.cam =>
             last.uses[j].u.method = last.uses[k].u.method /\ last.uses[j].u.metric = last.uses[k].u.metric /\ last.uses[j].u.window = last.uses[k].u.window
\* the agreement does not depend on the order of the dives
V == {Decode(y) : y \in {z \in Files : Valid(z)}}
ASSUME \A a, b, c \in V : Equivalent(a, a) /\ (Equivalent(a, b) => Equivalent(b, a)) /\ (Equivalent(a, b) /\ Equivalent(b, c) => Equivalent(a, c))
===============================================================================
