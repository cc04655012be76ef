-------------------------------- MODULE Trig --------------------------------
(* Fixed-point rotations: angles in hundredths of a degree, sines and cosines *)
(* scaled by 10000.  The attitude convention is yaw (about down), pitch, roll:*)
(* the rotation takes body axes (surge, sway, heave) to north, east, down.    *)
EXTENDS Num
S == 10000
SinTab == <<0, 175, 349, 523, 698, 872, 1045, 1219, 1392, 1564, 1736, 1908, 2079, 2250, 2419, 2588,
     2756, 2924, 3090, 3256, 3420, 3584, 3746, 3907, 4067, 4226, 4384, 4540, 4695, 4848, 5000,
     5150, 5299, 5446, 5592, 5736, 5878, 6018, 6157, 6293, 6428, 6561, 6691, 6820, 6947, 7071,
     7193, 7314, 7431, 7547, 7660, 7771, 7880, 7986, 8090, 8192, 8290, 8387, 8480, 8572, 8660,
     8746, 8829, 8910, 8988, 9063, 9135, 9205, 9272, 9336, 9397, 9455, 9511, 9563, 9613, 9659,
     9703, 9744, 9781, 9816, 9848, 9877, 9903, 9925, 9945, 9962, 9976, 9986, 9994, 9998, 10000>>

(* sine of 0..9000 by linear interpolation in the table                       *)
SinQ(c) == LET k == c \div 100
               f == c % 100
           IN IF f = 0 THEN SinTab[k + 1]
              ELSE RDiv(SinTab[k + 1] * (100 - f) + SinTab[k + 2] * f, 100)
Sin(c) == LET a == c % 36000
          IN CASE a <= 9000  -> SinQ(a)
               [] a <= 18000 -> SinQ(18000 - a)
               [] a <= 27000 -> -SinQ(a - 18000)
               [] OTHER      -> -SinQ(36000 - a)
Cos(c) == Sin(c + 9000)

Mul(a, b) == RDiv(a * b, S)
(* rows of the rotation matrix                                                *)
Rot(r, p, y) ==
  LET sr == Sin(r) cr == Cos(r) sp == Sin(p) cp == Cos(p) sy == Sin(y) cy == Cos(y)
  IN << <<Mul(cy, cp), Mul(Mul(cy, sp), sr) - Mul(sy, cr), Mul(Mul(cy, sp), cr) + Mul(sy, sr)>>,
        <<Mul(sy, cp), Mul(Mul(sy, sp), sr) + Mul(cy, cr), Mul(Mul(sy, sp), cr) - Mul(cy, sr)>>,
        <<-sp,         Mul(cp, sr),                         Mul(cp, cr)>> >>
(* vector components up to 60000                                              *)
App(m, v) == [k \in 1..3 |-> RDiv(m[k][1] * v[1], S) + RDiv(m[k][2] * v[2], S) + RDiv(m[k][3] * v[3], S)]
Rotate(r, p, y, v) == App(Rot(r, p, y), v)
Minus(a, b) == [k \in 1..3 |-> a[k] - b[k]]

-----------------------------------------------------------------------------
(* Sanity of the convention over a grid of attitudes.                         *)
CONSTANTS Step
VARIABLES att
Init == att \in [1..3 -> {k * Step : k \in 0..(36000 \div Step)}]
Next == UNCHANGED att
Spec == Init /\ [][Next]_att
M == Rot(att[1], att[2], att[3])
Dot(a, b) == RDiv(a[1] * b[1], S) + RDiv(a[2] * b[2], S) + RDiv(a[3] * b[3], S)
Orthonormal == \A i, j \in 1..3 : Near(Dot(M[i], M[j]), IF i = j THEN S ELSE 0, 8)
Cross(a, b) == <<RDiv(a[2] * b[3], S) - RDiv(a[3] * b[2], S), RDiv(a[3] * b[1], S) - RDiv(a[1] * b[3], S), RDiv(a[1] * b[2], S) - RDiv(a[2] * b[1], S)>>
RightHanded == \A k \in 1..3 : Near(Cross(M[1], M[2])[k], M[3][k], 8)
(* heading east moves surge to east; pitching up moves surge up; rolling to   *)
(* starboard moves sway down                                                  *)
Convention == /\ att = <<0, 0, 9000>> => App(M, <<1000, 0, 0>>) = <<0, 1000, 0>>
              /\ att = <<0, 9000, 0>> => App(M, <<1000, 0, 0>>) = <<0, 0, -1000>>
              /\ att = <<9000, 0, 0>> => App(M, <<0, 1000, 0>>) = <<0, 0, 1000>>
=============================================================================
