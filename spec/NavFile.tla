------------------------------ MODULE NavFile ------------------------------
(* The navigation file of a dive.  One parser per configured sensor runs in a *)
(* pool; parsers finish in any order.  The results are compiled in the order  *)
(* of the configuration behind the dive's origin and interlaced by time.      *)
EXTENDS Num, TLC

\* times are <<day, ms>> so that they fit TLC's integers
TLeq(a, b) == a[1] < b[1] \/ (a[1] = b[1] /\ a[2] <= b[2])
Bag(x) == [v \in {x[i] : i \in DOMAIN x} |-> Cardinality({i \in DOMAIN x : x[i] = v})]
SameBag(a, b) == Len(a) = Len(b) /\ Bag(a) = Bag(b)

RECURSIVE Insert(_, _)
\* stable insertion of reading r into an ordered sequence (after equal times)
Insert(s, r) == IF s = <<>> THEN <<r>>
                ELSE IF s[Len(s)].t <= r.t THEN Append(s, r)
                ELSE Append(Insert(SubSeq(s, 1, Len(s) - 1), r), s[Len(s)])
RECURSIVE Interlace(_)
Interlace(s) == IF s = <<>> THEN <<>> ELSE Insert(Interlace(SubSeq(s, 1, Len(s) - 1)), s[Len(s)])
RECURSIVE Flat(_)
Flat(ss) == IF ss = <<>> THEN <<>> ELSE Head(ss) \o Flat(Tail(ss))

-----------------------------------------------------------------------------
CONSTANTS NParsers, MaxLen, MaxT
VARIABLES logs, at, got, compiled, file, phase
vars == <<logs, at, got, compiled, file, phase>>
PS == 1..NParsers
Readings(p) == UNION {[1..n -> 1..MaxT] : n \in 0..MaxLen}
Init == /\ logs \in [PS -> Readings(1)]
        /\ at = [p \in PS |-> 0] /\ got = [p \in PS |-> <<>>]
        /\ compiled = 0 /\ file = <<>> /\ phase = "load"
\* a parser reads one line of its log
ReadLine(p) == /\ phase = "load" /\ at[p] < Len(logs[p])
           /\ at' = [at EXCEPT ![p] = @ + 1]
           /\ got' = [got EXCEPT ![p] = Append(@, [s |-> p, n |-> at[p] + 1, t |-> logs[p][at[p] + 1]])]
           /\ UNCHANGED <<logs, compiled, file, phase>>
\* the compiler waits for the next parser in configuration order
Compile == /\ phase = "load" /\ compiled < NParsers
           /\ at[compiled + 1] = Len(logs[compiled + 1])
           /\ compiled' = compiled + 1
           /\ file' = file \o got[compiled + 1] /\ UNCHANGED <<logs, at, got, phase>>
Sort == /\ phase = "load" /\ compiled = NParsers /\ phase' = "done"
        /\ file' = Interlace(file) /\ UNCHANGED <<logs, at, got, compiled>>
Next == (\E p \in PS : ReadLine(p)) \/ Compile \/ Sort
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

All == UNION {{[s |-> p, n |-> i, t |-> logs[p][i]] : i \in 1..Len(logs[p])} : p \in PS}
Complete == phase = "done" => {file[i] : i \in DOMAIN file} = All /\ Len(file) = Cardinality(All)
Chronological == phase = "done" => \A i, j \in DOMAIN file : i < j => file[i].t <= file[j].t
\* the result is a function of the logs alone
ScheduleFree == phase = "done" =>
   file = Interlace(Flat([p \in PS |-> [i \in 1..Len(logs[p]) |-> [s |-> p, n |-> i, t |-> logs[p][i]]]]))
Finishes == <>(phase = "done")
=============================================================================
