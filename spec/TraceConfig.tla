----------------------------- MODULE TraceConfig -----------------------------
(* Every command of a history: the dives as they lay before, what the command *)
(* worked with (recorded in the corrector before it reads the images), what   *)
(* lay in the configuration folder afterwards.                                *)
EXTENDS TraceBase
VARIABLES fmt, raw, cfg, files, mine, last, n
CF == INSTANCE Config WITH Formats <- {}, Systems <- {}, Files <- {}, Marks <- {}, Dives <- {}, MaxSteps <- 0
SetOf(s) == {s[i] : i \in DOMAIN s}
Have(x) == x # CF!None
Src(v) == CF!Source(Have(v.cfg), Have(v.raw), v.fmt)
\* definitions and files of the shipped defaults, by name
CamOf(e, v) == CASE Src(v) = "config" -> v.cfg [] Src(v) = "raw" -> v.raw [] Src(v) = "default" -> e.defcams[CF!DefaultCam[v.fmt]] [] OTHER -> CF!None
FileOf(e, v) == IF Have(v.file) THEN v.file ELSE IF CF!Known(v.fmt) THEN e.deffiles[CF!DefaultConf[v.fmt]] ELSE CF!None
CamLoads(e, v) == v.fmt # "" /\ CamOf(e, v) # CF!None /\ CF!CamValid(CamOf(e, v)) /\ CamOf(e, v).system = v.fmt
Loads(e, v) == CamLoads(e, v) /\ FileOf(e, v) # CF!None /\ CF!Valid(FileOf(e, v))
\* what may appear in the configuration folder of a dive: the defaults of its format, where nothing was
Copied(e, v) == IF CamLoads(e, v) /\ ~Have(v.file) /\ CF!Known(v.fmt) THEN {<<e.fname, e.defhash[CF!DefaultConf[v.fmt]]>>} ELSE {}
BagCam(e, v) == IF v.fmt = "rosbag" /\ Src(v) = "default" THEN {<<"camera.yaml", e.camhash[CF!DefaultCam["rosbag"]]>>} ELSE {}
Run(e) ==
  LET ds == e.dives
      all == e.sfxok /\ \A i \in DOMAIN ds : Loads(e, ds[i])
      conf(i) == CF!Decode(FileOf(e, ds[i]))
      agree == \A i \in DOMAIN ds : CamOf(e, ds[i]).system = CamOf(e, ds[1]).system /\ CF!Equivalent(conf(1), conf(i))
      fine == all /\ agree
      confs == [i \in DOMAIN ds |-> conf(i)]
      cams == CamOf(e, ds[1]).cams
      want == (IF e.mode \in {"parse", "correct"} THEN CF!Uses("parse", cams, confs) ELSE <<>>)
              \o (IF e.mode \in {"process", "correct"} THEN CF!Uses("process", cams, confs) ELSE <<>>)
      new(i) == SetOf(ds[i].after) \ SetOf(ds[i].before)
  IN [outcome |-> IF fine THEN e.status = "ok" \/ (e.blind /\ e.status = "quit")     \* bag files need software that is not installed
                  ELSE IF ~e.sfxok THEN e.status \in {"ok", "quit"}
                  \* an image format without defaults and no correction file: any refusal
                  ELSE IF \E i \in DOMAIN ds : CamLoads(e, ds[i]) /\ FileOf(e, ds[i]) = CF!None THEN e.status # "ok"
                  ELSE e.status = "quit",
      works_with |-> IF ~fine THEN e.uses = <<>> ELSE ~e.blind => e.uses = want,
      users_files_kept |-> \A i \in DOMAIN ds : SetOf(ds[i].before) \subseteq SetOf(ds[i].after),
      default_copied |-> \A i \in DOMAIN ds : /\ new(i) \subseteq (IF e.sfxok THEN Copied(e, ds[i]) \cup BagCam(e, ds[i]) ELSE {})
                                              /\ all => Copied(e, ds[i]) \subseteq new(i),
      kept_in_log |-> fine => \A i \in DOMAIN ds : IF Have(ds[i].file) THEN ds[i].hash \in SetOf(ds[i].logs) ELSE e.defhash[CF!DefaultConf[ds[i].fmt]] \in SetOf(ds[i].logs),
      inputs_untouched |-> \A i \in DOMAIN ds : ds[i].rawsame]
Next == Ev.op = "run" /\ Consume(Violated(Run(Ev))) /\ UNCHANGED <<fmt, raw, cfg, files, mine, last, n>>
Spec == TraceInit /\ fmt = 0 /\ raw = 0 /\ cfg = 0 /\ files = 0 /\ mine = 0 /\ last = 0 /\ n = 0 /\ [][l <= Len(Trace) /\ Next]_<<l, bad, fmt, raw, cfg, files, mine, last, n>>
=============================================================================
