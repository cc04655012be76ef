------------------------------- MODULE Develop -------------------------------
(* Development of one pixel.  Intensities v are 1/256, attenuation a, its     *)
(* constant part c and the gain g are 1/64 (attenuation halves every metre of *)
(* the distance d), mean m and deviation s are 1/1000, brightness B and       *)
(* contrast C are percentages; o is the 8 bit result.                         *)
EXTENDS Num
Clip(y) == IF y < 0 THEN 0 ELSE IF y > 1000 THEN 1000 ELSE y
Gone(a, d) == a \div (2 ^ d)
\* attenuation corrected intensity, 1/1000
Restored(p) == RDiv(1000 * p.v * p.g, 256 * (Gone(p.a, p.d) + p.c))
Raw(p) == RDiv(1000 * p.v, 256)
Normal(x, p) == Clip(RDiv((x - p.m) * p.C * 10, p.s) + 10 * p.B)
\* 255 (1.055 y^(2/3) - 0.055) for y in 1/1000: q = (o + 14) / 269, q^3 = y^2
Below(o, y) == LET q == ((o + 14) * 1000) \div 269 IN q * q * q <= y * y * 1000
GammaTable == [y \in 0..1000 |-> IF ~Below(0, y) THEN 0 ELSE MaxOf({o \in 0..255 : Below(o, y)})]
Gamma(y) == GammaTable[y]
\* the dark end is linear: at most 10 levels
Same(o, y, tol) == IF y < 25 THEN o <= 24 ELSE Near(o, Gamma(y), tol)
Developed(p, o) == Same(o, Normal(Restored(p), p), 3)
Plain(p, o) == Same(o, Normal(Raw(p), p), 3)
\* manual balance of channel values v[j]: gains k[j] (1/10), subtractors s[j] (1/100)
Balanced(b, o) == LET y == b.k[1] * (RDiv(10000 * b.v[1], 256) - 100 * b.s[1]) + b.k[2] * (RDiv(10000 * b.v[2], 256) - 100 * b.s[2]) + b.k[3] * (RDiv(10000 * b.v[3], 256) - 100 * b.s[3])
                      w == IF y < 0 THEN 0 ELSE IF y > 100000 THEN 100000 ELSE y
                  IN Near(o, (w * 255) \div 100000, 1)
=============================================================================
