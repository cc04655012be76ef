-------------------------------- MODULE MCCal --------------------------------
(* All histories of auv_cal commands within bounds *)
EXTENDS CalWorkflow, TLC
CONSTANTS MaxCmds
VARIABLES st, w, n, last
vars == <<st, w, n, last>>
Cams == <<"a", "b">>
S == {"", "x"}
Idle == [op |-> "none", f |-> 0, s |-> "", wr |-> {}, res |-> "ok"]
Init == /\ st = [mono |-> [s \in S |-> [c \in {"a", "b"} |-> 0]], json |-> [s \in S |-> [c \in {"a", "b"} |-> 0]],
                 stereo |-> [s \in S |-> <<>>], det |-> 0, laser |-> [s \in S |-> 0]]
        /\ w = [ver |-> [c \in {"a", "b"} |-> 1], enough |-> [c \in {"a", "b"} |-> TRUE], seen |-> [c \in {"a", "b"} |-> TRUE], lver |-> 1, lenough |-> TRUE]
        /\ n = 0 /\ last = Idle
Run(op, s, f) ==
  LET r == CASE op = "mono" -> Mono(st, w, s, f, Cams) [] op = "stereo" -> Stereo(st, w, s, f, Cams) [] OTHER -> Laser(st, w, s, f, Cams)
  IN st' = r[1] /\ last' = [op |-> op, f |-> f, s |-> s, wr |-> r[3], res |-> r[2]] /\ UNCHANGED w
NewImages(c, k) == /\ w' = [w EXCEPT !.ver[c] = 2, !.enough[c] = k # "few", !.seen[c] = k # "blank"] /\ UNCHANGED st /\ last' = Idle
NewLaser(k) == w' = [w EXCEPT !.lver = 2, !.lenough = k # "few"] /\ UNCHANGED st /\ last' = Idle
Lose(c) == st' = [st EXCEPT !.json[""][c] = 0] /\ UNCHANGED w /\ last' = Idle
Next == n < MaxCmds /\ n' = n + 1
        /\ \/ \E op \in {"mono", "stereo", "laser"}, s \in S, f \in 0..2 : Run(op, s, f)
           \/ \E c \in {"a", "b"}, k \in {"good", "few", "blank"} : NewImages(c, k)
           \/ \E k \in {"good", "few"} : NewLaser(k)
           \/ \E c \in {"a", "b"} : Lose(c)
Spec == Init /\ [][Next]_vars
\* files that exist change only when forced, and only by the command that makes them or one that needs them
Protected == [][last'.f = 0 => \A s \in S : /\ \A c \in {"a", "b"} : st.mono[s][c] # 0 => <<"mono", s, c>> \notin last'.wr
                                           /\ (st.stereo[s] # <<>> => <<"stereo", s>> \notin last'.wr)
                                           /\ (st.laser[s] # 0 => <<"laser", s>> \notin last'.wr)]_vars
\* a suffixed command never touches unsuffixed results nor the other way round
Suffixes == last.s # "" => \A x \in last.wr : x[2] = last.s
\* a complete force leaves nothing that comes from older images than the ones there
Fresh == [][(last'.f = 2 /\ last'.op = "mono" /\ last'.res = "ok") => \A c \in {"a", "b"} : w.seen[c] => st'.mono[last'.s][c] = w.ver[c]]_vars
\* a stereo calibration never outlives the refusal of its cameras: it stems from cameras that were calibrated
Grounded == \A s \in S : st.stereo[s] # <<>> => \A i \in 1..2 : st.stereo[s][i] # 0
=============================================================================
