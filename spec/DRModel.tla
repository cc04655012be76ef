------------------------------- MODULE DRModel -------------------------------
(* Dead reckoning of small manoeuvres: headings are quarter turns, the body   *)
(* velocity is piecewise constant, poses arrive at irregular intervals.       *)
EXTENDS Integers, Sequences
CONSTANTS MaxSteps
VARIABLES t, h, v, pos, turned, dist
vars == <<t, h, v, pos, turned, dist>>
D == INSTANCE DeadReckoning WITH Step <- 9000, att <- <<0, 0, 0>>

Vels == {<<1000, 0, 0>>, <<0, 1000, 0>>, <<1000, -1000, 0>>, <<0, 0, 1000>>}
Init == t = 0 /\ h \in {0, 9000, 18000, 27000} /\ v \in Vels /\ pos = <<0, 0>> /\ turned = FALSE /\ dist = 0
G(hh) == D!Rotate(0, 0, hh, v)
Pose(dt, h2) ==
  LET m == D!Moved(G(h), G(h2), dt)
  IN /\ t' = t + dt /\ h' = h2
     /\ pos' = <<pos[1] + m[1], pos[2] + m[2]>>
     /\ turned' = (turned \/ h2 # h)
     /\ dist' = dist + D!Abs(m[1]) + D!Abs(m[2])
     /\ UNCHANGED v
Next == t < MaxSteps * 1000 /\ \E dt \in {500, 1000}, q \in {0, 9000, 27000} : Pose(dt, (h + q) % 36000)
Spec == Init /\ [][Next]_vars

(* a straight run covers velocity times time along the heading, however it is *)
(* sampled                                                                    *)
Straight == ~turned => \A k \in 1..2 : pos[k] = D!RDiv(G(h)[k] * t, 1000)
(* the vehicle never moves further than its speed allows                      *)
SpeedBound == dist <= ((D!Abs(v[1]) + D!Abs(v[2])) * t) \div 1000
(* heave does not move a level vehicle horizontally                           *)
HeaveOnly == (v[1] = 0 /\ v[2] = 0) => pos = <<0, 0>>
=============================================================================
