-------------------------------- MODULE Num --------------------------------
(* Scaled-integer arithmetic (TLC integers are 32 bit: the drivers scale     *)
(* physical quantities so that every product below stays in range).          *)
EXTENDS Integers, Sequences, FiniteSets

Abs(x) == IF x < 0 THEN -x ELSE x
Near(a, b, tol) == Abs(a - b) <= tol
MaxOf(S) == CHOOSE x \in S : \A y \in S : x >= y
MinOf(S) == CHOOSE x \in S : \A y \in S : x <= y
Rng(s) == {s[i] : i \in DOMAIN s}

(* y is the linear interpolation at t between (t0,y0) and (t1,y1), +- tol    *)
OnLine(y, t, t0, y0, t1, y1, tol) ==
  IF t1 = t0 THEN Near(y, y0, tol)
  ELSE Abs((y - y0) * (t1 - t0) - (y1 - y0) * (t - t0)) <= tol * Abs(t1 - t0)

(* rounded (half towards +infinity) integer interpolation                    *)
RDiv(a, b) == (2 * a + b) \div (2 * b)
Lerp(t, t0, y0, t1, y1) == IF t1 = t0 THEN y0 ELSE y0 + RDiv((y1 - y0) * (t - t0), t1 - t0)

(* angle (any unit) normalised to [0, full)                                  *)
Mod(a, full) == a % full
(* signed shortest difference a-b in (-full/2, full/2]                        *)
AngDiff(a, b, full) == LET d == (a - b) % full IN IF 2 * d > full THEN d - full ELSE d
=============================================================================
