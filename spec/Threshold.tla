------------------------------- MODULE Threshold -------------------------------
(* Elementwise thresholding of Gaussian integers whose magnitude is an integer.      *)
(* An element x is [re, im, m] with m = |x|; a result is a fraction (re + i im)/den;   *)
(* den = 0 stands for an infinite value of that sign.  Inf as a magnitude or as a      *)
(* threshold is infinity.  Results that are the substitute value have sub = TRUE.      *)
EXTENDS Util

Inf == 1000000
Frac(x, n, d) == [re |-> x.re * n, im |-> x.im * n, den |-> d, sub |-> FALSE]
Keep(x) == IF x.m = Inf THEN Frac(x, 1, 0) ELSE Frac(x, 1, 1)
Zero == [re |-> 0, im |-> 0, den |-> 1, sub |-> FALSE]
Subst == [re |-> 0, im |-> 0, den |-> 1, sub |-> TRUE]

\* removed values are zero, or the substitute value if one is given; the value at the
\* threshold itself shrinks to zero in the continuous modes
Soft(x, t, hassub) ==
  IF x.m < t THEN (IF hassub THEN Subst ELSE Zero)
  ELSE IF x.m = t THEN Zero
  ELSE IF x.m = Inf THEN Keep(x)
  ELSE Frac(x, x.m - t, x.m)
Garrote(x, t, hassub) ==
  IF x.m < t THEN (IF hassub THEN Subst ELSE Zero)
  ELSE IF x.m = t THEN Zero
  ELSE IF x.m = Inf THEN Keep(x)
  ELSE Frac(x, x.m * x.m - t * t, x.m * x.m)
Hard(x, t, hassub) ==
  IF x.m < t THEN (IF hassub THEN Subst ELSE Zero) ELSE Keep(x)
\* signed values; infinite ones are +-Inf
Signed(x) == IF x.m = Inf THEN x.re * Inf ELSE x.re
Greater(x, t, hassub) == IF Signed(x) < t THEN (IF hassub THEN Subst ELSE Zero) ELSE Keep(x)
Less(x, t, hassub) == IF Signed(x) > t THEN (IF hassub THEN Subst ELSE Zero) ELSE Keep(x)
Firm(x, lo, hi) ==
  IF x.m <= lo THEN Zero
  ELSE IF x.m > hi THEN Keep(x)
  ELSE IF hi = Inf THEN Soft(x, lo, FALSE)
  ELSE Frac(x, hi * (x.m - lo), x.m * (hi - lo))

Op(mode, x, t, hassub) ==
  CASE mode = "soft" -> Soft(x, t, hassub)
    [] mode \in {"garrote", "garotte"} -> Garrote(x, t, hassub)
    [] mode = "hard" -> Hard(x, t, hassub)
    [] mode = "greater" -> Greater(x, t, hassub)
    [] mode = "less" -> Less(x, t, hassub)
-----------------------------------------------------------------------------
El(re, im, m) == [re |-> re, im |-> im, m |-> m]
Reals(n) == {El(v, 0, IF v < 0 THEN -v ELSE v) : v \in -n..n} \cup {El(1, 0, Inf), El(-1, 0, Inf)}
Triples == {<< 3, 4, 5 >>, << 5, 12, 13 >>, << 6, 8, 10 >>, << 8, 15, 17 >>, << 9, 12, 15 >>}
Gauss(n) == UNION {{El(s * a[1], u * a[2], a[3]), El(s * a[2], u * a[1], a[3])} :
                     a \in {z \in Triples : z[3] <= n}, s \in {-1, 1}, u \in {-1, 1}}
            \cup {El(0, s * v, v) : s \in {-1, 1}, v \in 1..n} \cup {El(v, 0, IF v < 0 THEN -v ELSE v) : v \in -n..n}
=============================================================================
