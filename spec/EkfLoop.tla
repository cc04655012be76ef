------------------------------- MODULE EkfLoop -------------------------------
(* The event loop of the Kalman filter: streams of orientation, acoustic fix, *)
(* depth and velocity readings and of times at which a pose is wanted.  The   *)
(* filter starts at Start, predicts to the next time of any stream and then   *)
(* corrects with every reading of that time, until End.                       *)
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt, FiniteSetsExt
CONSTANTS MaxT, NR              \* times 0..MaxT, up to NR readings per stream
Kinds == <<"ori", "usbl", "dep", "vel", "want">>

(* ---- declarative meaning ------------------------------------------------ *)
\* s: streams as a function kind -> increasing sequence of times
Stamps(s, a, b) == {t \in UNION {Range(s[k]) : k \in DOMAIN s} : a < t /\ t <= b}
Times(s, a, b) == <<a>> \o SetToSortSeq(Stamps(s, a, b), LAMBDA x, y : x < y)
At(s, t) == SelectSeq(<<"ori", "usbl", "dep", "vel">>, LAMBDA k : t \in Range(s[k]))
Steps(s, a, b) == LET ts == Tail(Times(s, a, b))
                  IN FlattenSeq([i \in 1..Len(ts) |-> <<<<ts[i], "predict">>>> \o [j \in 1..Len(At(s, ts[i])) |-> <<ts[i], At(s, ts[i])[j]>>]])

(* ---- the loop with one cursor per stream ---------------------------------- *)
VARIABLES st, from, to, idx, cur, log, pc
vars == <<st, from, to, idx, cur, log, pc>>
Streams == UNION {{SetToSortSeq(x, LAMBDA a, b : a < b) : x \in kSubset(n, 0..MaxT)} : n \in 0..NR}
Init == /\ from \in 0..MaxT /\ to \in 0..MaxT /\ from < to
        /\ st \in [{"ori", "dep", "vel", "want"} -> Streams] /\ to \in Range(st["ori"])
        /\ idx = [k \in DOMAIN st |-> 1 + Cardinality({i \in 1..Len(st[k]) : st[k][i] <= from})]
        /\ cur = from /\ log = <<>> /\ pc = "loop"
Next0(k) == IF idx[k] <= Len(st[k]) THEN {st[k][idx[k]]} ELSE {}
Pred == /\ pc = "loop" /\ cur < to
        /\ LET c == UNION {Next0(k) : k \in DOMAIN st} IN
             IF c = {} THEN pc' = "done" /\ UNCHANGED <<idx, cur, log>>
             ELSE LET t == Min(c)
                      now == SelectSeq(<<"ori", "dep", "vel">>, LAMBDA k : Next0(k) = {t})
                  IN /\ cur' = t /\ pc' = "loop"
                     /\ log' = log \o <<<<t, "predict">>>> \o [j \in 1..Len(now) |-> <<t, now[j]>>]
                     /\ idx' = [k \in DOMAIN st |-> IF Next0(k) = {t} THEN idx[k] + 1 ELSE idx[k]]
        /\ UNCHANGED <<st, from, to>>
Stop == pc = "loop" /\ cur >= to /\ pc' = "done" /\ UNCHANGED <<st, from, to, idx, cur, log>>
Next == Pred \/ Stop
Spec == Init /\ [][Next]_vars
Full == [k \in DOMAIN st \cup {"usbl"} |-> IF k = "usbl" THEN <<>> ELSE st[k]]
Exact == pc = "done" => log = Steps(Full, from, to)
Forward == \A i \in 2..Len(log) : log[i - 1][1] <= log[i][1]
Once == \A i, j \in 1..Len(log) : i # j => log[i] # log[j]
PoseForEveryWanted == pc = "done" => \A k \in 1..Len(st["want"]) : (from < st["want"][k] /\ st["want"][k] <= to) => \E i \in 1..Len(log) : log[i] = <<st["want"][k], "predict">>
=============================================================================
