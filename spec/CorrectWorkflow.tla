--------------------------- MODULE CorrectWorkflow ---------------------------
(* Command histories of correct_images.  A configuration (method, metric,     *)
(* brightness, suffix) names the folder its parameters go to and the folder   *)
(* its developed images go to; several configurations may share parameters.   *)
(* Parameters remember which images (version) of which dives they were        *)
(* computed from, developed images which images and parameters.               *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS Dives, Confs, ParamOf(_), NeedsParams(_), MaxVer, MaxCmds
VARIABLES raw, par, img, n, last
vars == <<raw, par, img, n, last>>
Ps == {ParamOf(c) : c \in Confs}
None == {}
Init == /\ raw = [d \in Dives |-> 1] /\ par = [d \in Dives |-> [p \in Ps |-> None]]
        /\ img = [d \in Dives |-> [c \in Confs |-> None]] /\ n = 0 /\ last = [op |-> "none", force |-> FALSE]
Change(d) == raw[d] < MaxVer /\ raw' = [raw EXCEPT ![d] = @ + 1] /\ last' = [op |-> "change", force |-> FALSE] /\ UNCHANGED <<par, img>>
\* parameters of all the dives of one command
Source(D) == {<<d, raw[d]>> : d \in D}
ParseRefused(D, c, f) == NeedsParams(c) /\ ~f /\ \E d \in D : par[d][ParamOf(c)] # None
Parsed(D, c) == IF ~NeedsParams(c) THEN par ELSE [d \in Dives |-> IF d \in D THEN [par[d] EXCEPT ![ParamOf(c)] = Source(D)] ELSE par[d]]
Parse(D, c, f) == /\ par' = IF ParseRefused(D, c, f) THEN par ELSE Parsed(D, c)
                  /\ last' = [op |-> "parse", D |-> D, c |-> c, force |-> f] /\ UNCHANGED <<raw, img>>
ProcessRefused(P, d, c, f) == (NeedsParams(c) /\ P[d][ParamOf(c)] = None) \/ (~f /\ img[d][c] # None)
Developed(P, d, c) == [img EXCEPT ![d][c] = {<<raw[d], IF NeedsParams(c) THEN P[d][ParamOf(c)] ELSE None>>}]
Process(d, c, f) == /\ img' = IF ProcessRefused(par, d, c, f) THEN img ELSE Developed(par, d, c)
                    /\ last' = [op |-> "process", D |-> {d}, c |-> c, force |-> f] /\ UNCHANGED <<raw, par>>
\* both in one go
Correct(d, c, f) == /\ IF ParseRefused({d}, c, f) THEN UNCHANGED <<par, img>>
                       ELSE /\ par' = Parsed({d}, c)
                            /\ img' = IF ProcessRefused(Parsed({d}, c), d, c, f) THEN img ELSE Developed(Parsed({d}, c), d, c)
                    /\ last' = [op |-> "correct", D |-> {d}, c |-> c, force |-> f] /\ UNCHANGED raw
Next == /\ n < MaxCmds /\ n' = n + 1
        /\ \/ \E d \in Dives : Change(d)
           \/ \E c \in Confs, f \in BOOLEAN : \/ \E D \in SUBSET Dives : D # {} /\ Parse(D, c, f)
                                              \/ \E d \in Dives : Process(d, c, f) \/ Correct(d, c, f)
Spec == Init /\ [][Next]_vars

Protected == [][\A d \in Dives : /\ \A p \in Ps : (par[d][p] # None /\ par'[d][p] # par[d][p]) => last'.force /\ d \in last'.D /\ p = ParamOf(last'.c)
                                 /\ \A c \in Confs : (img[d][c] # None /\ img'[d][c] # img[d][c]) => last'.force /\ last'.D = {d} /\ c = last'.c]_vars
Fresh == [][/\ (last'.op = "parse" /\ last'.force /\ NeedsParams(last'.c)) => \A d \in last'.D : par'[d][ParamOf(last'.c)] = Source(last'.D)
            /\ (last'.op = "correct" /\ last'.force) => \A d \in last'.D : img'[d][last'.c] # None
            /\ (last'.op = "process" /\ last'.force) => \A d \in last'.D : ~ProcessRefused(par, d, last'.c, TRUE) => img'[d][last'.c] = Developed(par, d, last'.c)[d][last'.c]]_vars
\* developed images always come from existing parameters
Grounded == \A d \in Dives, c \in Confs : (NeedsParams(c) /\ img[d][c] # None) => \A x \in img[d][c] : x[2] # None
=============================================================================
