------------------------------ MODULE Workflow ------------------------------
(* The command histories of auv_nav.  Per dive: the version of its raw inputs *)
(* and configuration, the navigation file (which raw version it was parsed    *)
(* from) and the results per time span (what they were computed from).        *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS Dives, Spans, MaxVer, MaxCmds
VARIABLES raw, conf, nav, ren, n, last
vars == <<raw, conf, nav, ren, n, last>>
None == 0
NoRes == <<0, 0, 0>>
Init == /\ raw = [d \in Dives |-> 1] /\ conf = [d \in Dives |-> 1]
        /\ nav = [d \in Dives |-> None]
        /\ ren = [d \in Dives |-> [w \in Spans |-> NoRes]]
        /\ n = 0 /\ last = [op |-> "none"]
Change(d) == /\ raw[d] < MaxVer /\ raw' = [raw EXCEPT ![d] = @ + 1]
             /\ last' = [op |-> "change", d |-> d] /\ UNCHANGED <<conf, nav, ren>>
Config(d) == /\ conf[d] < MaxVer /\ conf' = [conf EXCEPT ![d] = @ + 1]
             /\ last' = [op |-> "config", d |-> d] /\ UNCHANGED <<raw, nav, ren>>
Skips(d, force) == ~force /\ nav[d] # None
Parse(d, force) ==
   /\ nav' = IF Skips(d, force) THEN nav ELSE [nav EXCEPT ![d] = raw[d]]
   /\ last' = [op |-> "parse", d |-> d, force |-> force, skip |-> Skips(d, force)]
   /\ UNCHANGED <<raw, conf, ren>>
Refuses(d, force, w) == nav[d] = None \/ (~force /\ ren[d][w] # NoRes)
Process(d, force, w) ==
   /\ ren' = IF Refuses(d, force, w) THEN ren ELSE [ren EXCEPT ![d][w] = <<nav[d], raw[d], conf[d]>>]
   /\ last' = [op |-> "process", d |-> d, force |-> force, w |-> w, refused |-> Refuses(d, force, w)]
   /\ UNCHANGED <<raw, conf, nav>>
Next == /\ n < MaxCmds /\ n' = n + 1
        /\ \E d \in Dives : \/ Change(d) \/ Config(d)
                            \/ \E f \in BOOLEAN : Parse(d, f) \/ \E w \in Spans : Process(d, f, w)
Spec == Init /\ [][Next]_vars

\* without force an existing result is never replaced
Protected == [][\A d \in Dives :
     /\ (nav[d] # None /\ nav'[d] # nav[d]) => last'.op = "parse" /\ last'.d = d /\ last'.force
     /\ \A w \in Spans : (ren[d][w] # NoRes /\ ren'[d][w] # ren[d][w])
            => last'.op = "process" /\ last'.d = d /\ last'.w = w /\ last'.force]_vars
\* with force (or the first time) the result is that of the current inputs
Fresh == [][ /\ (last'.op = "parse" /\ (last'.force \/ nav[last'.d] = None)) => nav'[last'.d] = raw[last'.d]
             /\ (last'.op = "process" /\ nav[last'.d] # None /\ (last'.force \/ ren[last'.d][last'.w] = NoRes))
                  => ren'[last'.d][last'.w] = <<nav[last'.d], raw[last'.d], conf[last'.d]>> ]_vars
NoResultsWithoutParse == \A d \in Dives : nav[d] = None => \A w \in Spans : ren[d][w] = NoRes
\* commands never touch inputs
InputsKept == [][last'.op \in {"parse", "process"} => raw' = raw /\ conf' = conf]_vars
=============================================================================
