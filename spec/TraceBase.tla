------------------------------ MODULE TraceBase ------------------------------
(* Common part of every trace-validation module: the recorded trace, the     *)
(* position in it, the total verdict (a failed clause is recorded and the    *)
(* rest of the trace is still checked).                                      *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils, SequencesExt

Trace == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES l, bad
tvars == <<l, bad>>

TraceInit == /\ l = 1
             /\ bad = <<>>
             /\ TLCSet(1, <<>>)
             /\ TLCSet(2, 0)

Ev == Trace[l]

(* Consume one event; `clauses' is the set of names of violated clauses.     *)
Consume(clauses) ==
  /\ l <= Len(Trace)
  /\ l' = l + 1
  /\ bad' = bad \o SetToSeq({[i |-> l, why |-> c] : c \in clauses})
  /\ TLCSet(1, bad')
  /\ TLCSet(2, l)

Done == JsonSerialize(IOEnv.OUT, [n |-> TLCGet(2), bad |-> TLCGet(1)])

(* [clause name |-> BOOLEAN] -> names of the clauses that are false          *)
Violated(c) == {n \in DOMAIN c : ~c[n]}
=============================================================================
