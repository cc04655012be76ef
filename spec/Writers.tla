------------------------------- MODULE Writers -------------------------------
(* The concurrent writers of `auv_nav process': the main thread starts one    *)
(* writer per table and at the end waits for all of them.  A writer makes the *)
(* folder if it is missing, writes the header (truncating the file) and then  *)
(* appends one row per element.  The folder is shared by the writers.         *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS W, MaxRows           \* writers 1..W, rows per table 0..MaxRows
VARIABLES rows, on, pc, seen, folder, file, started, joined
vars == <<rows, on, pc, seen, folder, file, started, joined>>
Absent == <<>>
Init == /\ rows \in [1..W -> 0..MaxRows] /\ on \in [1..W -> BOOLEAN]
        /\ pc = [w \in 1..W |-> "idle"] /\ seen = [w \in 1..W |-> FALSE]
        /\ folder = FALSE /\ file = [w \in 1..W |-> Absent] /\ started = 0 /\ joined = FALSE
Start == /\ started < W /\ started' = started + 1
         /\ pc' = [pc EXCEPT ![started + 1] = IF on[started + 1] /\ rows[started + 1] > 0 THEN "look" ELSE "done"]
         /\ UNCHANGED <<rows, on, seen, folder, file, joined>>
Look(w) == /\ pc[w] = "look" /\ pc' = [pc EXCEPT ![w] = IF folder THEN "head" ELSE "mkdir"]
           /\ UNCHANGED <<rows, on, seen, folder, file, started, joined>>
Mkdir(w) == /\ pc[w] = "mkdir" /\ folder' = TRUE     \* an existing folder is not an error
            /\ pc' = [pc EXCEPT ![w] = "head"] /\ UNCHANGED <<rows, on, seen, file, started, joined>>
Header(w) == /\ pc[w] = "head" /\ file' = [file EXCEPT ![w] = <<0>>] /\ pc' = [pc EXCEPT ![w] = "row"]
           /\ UNCHANGED <<rows, on, seen, folder, started, joined>>
Row(w) == /\ pc[w] = "row"
          /\ file' = [file EXCEPT ![w] = Append(@, Len(@))]
          /\ pc' = [pc EXCEPT ![w] = IF Len(file[w]) = rows[w] THEN "done" ELSE "row"]
          /\ UNCHANGED <<rows, on, seen, folder, started, joined>>
Join == /\ started = W /\ ~joined /\ \A w \in 1..W : pc[w] = "done" /\ joined' = TRUE
        /\ UNCHANGED <<rows, on, pc, seen, folder, file, started>>
Next == Start \/ Join \/ \E w \in 1..W : Look(w) \/ Mkdir(w) \/ Header(w) \/ Row(w)
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
Full(w) == [k \in 1..(rows[w] + 1) |-> k - 1]
\* when the command returns every selected non-empty table is whole, others do not exist
Complete == joined => \A w \in 1..W : file[w] = IF on[w] /\ rows[w] > 0 THEN Full(w) ELSE Absent
\* a table is at any time a prefix of what it will be
Prefix == \A w \in 1..W : file[w] # Absent => on[w] /\ Len(file[w]) <= rows[w] + 1 /\ \A k \in 1..Len(file[w]) : file[w][k] = k - 1
FolderFirst == \A w \in 1..W : file[w] # Absent => folder
Returns == <>joined

(* Which tables a run has, and how many rows: a function from table to rows.  *)
(* -1: at least one row (the number is the subject of another property).      *)
In(ts, s) == Cardinality({k \in 1..Len(ts) : s[1] <= ts[k] /\ ts[k] <= s[2]})
Solution(c, f, sol, dir, span, n, cams, pls, ref) ==   \* tables of one navigation solution
  LET cen == {<<dir \o "/auv_" \o sol \o "_centre.csv", IF f.auv_centre THEN n ELSE 0>>,
              <<dir \o "/auv_" \o sol \o "_centre_sss.txt", IF f.auv_centre THEN n ELSE 0>>}
      dvl == IF sol = "ekf" THEN {} ELSE {<<dir \o "/auv_" \o sol \o "_dvl.csv", IF f.auv_dvl THEN n ELSE 0>>}
      Cam(x, suf) == <<dir \o "/auv_" \o sol \o "_" \o x.name \o suf \o ".csv", IF f[x.flag] THEN In(x.ts, span) ELSE 0>>
      sufs(x) == IF sol # "ekf" THEN {""} ELSE IF x.flag = "camera_3" THEN {"", "_cov", "_at_dvl", "_at_dvl_cov"} ELSE {"", "_cov"}
      Pl(x) == <<dir \o "/" \o x.name \o "_" \o sol \o ".csv", IF f.payload THEN In(x.ts, span) ELSE 0>>
  IN cen \cup dvl \cup UNION {{Cam(cams[k], s) : s \in sufs(cams[k])} : k \in 1..Len(cams)} \cup {Pl(pls[k]) : k \in 1..Len(pls)}
Expected(c) ==
  LET all == {<<"sensor_values_and_uncertainties/" \o k \o ".csv", c.sensors[k]>> : k \in DOMAIN c.sensors}
             \cup (IF ~c.csv THEN {}
                   ELSE {<<"auv_usbl.csv", IF c.flags.usbl THEN c.sensors["usbl"] ELSE 0>>}
                        \cup Solution(c, c.flags.dr, "dr", "dead_reckoning", c.span, c.poses, c.cams, c.pls, 0)
                        \cup (IF c.pf /\ c.sensors["usbl"] > 0 THEN Solution(c, c.flags.pf, "pf", "particle_filter", c.pfspan, c.pfposes, c.cams, c.pls, 0) ELSE {})
                        \cup (IF c.ekf THEN Solution(c, c.flags.ekf, "ekf", "ekf", c.span, -1, c.cams, c.pls, 0) ELSE {}))
  IN {x \in all : x[2] # 0}
=============================================================================
