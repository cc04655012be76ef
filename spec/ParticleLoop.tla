---------------------------- MODULE ParticleLoop ----------------------------
(* The event loop of the particle filter: dead-reckoned poses and acoustic    *)
(* fixes are merged by time; a pose moves the particles, a fix moves them to  *)
(* its time and weighs them.  Fixes before the track are skipped, fixes after *)
(* it are never reached.                                                      *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS MaxT, ND, NU
VARIABLES dr, fx, i, j, out
vars == <<dr, fx, i, j, out>>
Sorted(s, strict) == \A a, b \in DOMAIN s : a < b => IF strict THEN s[a] < s[b] ELSE s[a] <= s[b]
Init == /\ dr \in {s \in UNION {[1..n -> 0..MaxT] : n \in 1..ND} : Sorted(s, TRUE)}
        /\ fx \in {s \in UNION {[1..n -> 0..MaxT] : n \in 0..NU} : Sorted(s, FALSE)}
        /\ i = 1 /\ j = 1 /\ out = <<>>
Skip == j <= Len(fx) /\ fx[j] < dr[1] /\ j' = j + 1 /\ UNCHANGED <<dr, fx, i, out>>
Live == i <= Len(dr) /\ ~(j <= Len(fx) /\ fx[j] < dr[1])
FixFirst == j <= Len(fx) /\ fx[j] <= dr[i]
Move == Live /\ ~FixFirst /\ out' = Append(out, <<"pose", i>>) /\ i' = i + 1 /\ UNCHANGED <<dr, fx, j>>
Weigh == Live /\ FixFirst /\ out' = Append(out, <<"fix", j>>) /\ j' = j + 1 /\ UNCHANGED <<dr, fx, i>>
Next == Skip \/ Move \/ Weigh
Spec == Init /\ [][Next]_vars

Time(d, f, x) == IF x[1] = "pose" THEN d[x[2]] ELSE f[x[2]]
(* the declarative meaning                                                    *)
In(d, f) == {k \in DOMAIN f : d[1] <= f[k] /\ f[k] <= d[Len(d)]}
Items(d, f) == {<<"pose", k>> : k \in DOMAIN d} \cup {<<"fix", k>> : k \in In(d, f)}
Before(d, f, x, y) == LET a == Time(d, f, x) b == Time(d, f, y)
                      IN \/ a < b
                         \/ a = b /\ x[1] = "fix" /\ y[1] = "pose"
                         \/ a = b /\ x[1] = y[1] /\ x[2] < y[2]
InOrder == \A a, b \in DOMAIN out : a < b => Before(dr, fx, out[a], out[b])
Complete == i > Len(dr) => {out[k] : k \in DOMAIN out} = Items(dr, fx)
OnceEach == Len(out) = Cardinality({out[k] : k \in DOMAIN out})
=============================================================================
