--------------------------------- MODULE Cwt ---------------------------------
(* The continuous transform at one scale a/b for an integrated wavelet given on P      *)
(* equidistant points spanning rn/rd: samples of the integral at distance 1/scale,      *)
(* reversed, convolved with the signal, differenced and centred.                        *)
EXTENDS Util

\* sample positions k (P - 1) / (scale * range), k = 0 .. ceil(scale * range), those inside the table
Sampled(a, b, rn, rd, P) ==
  LET den == a * rn
      last == CeilDiv(den, b * rd)
      all == Tab(last + 1, LAMBDA k : ((k - 1) * (P - 1) * b * rd) \div den)
  IN SelectSeq(all, LAMBDA j : j < P)
\* which of them lie so close to a table point that rounding may choose its neighbour: distance <= 1/tol of a step
Doubtful(a, b, rn, rd, P, tol) ==
  LET den == a * rn
  IN Tab(Len(Sampled(a, b, rn, rd, P)), LAMBDA k :
       LET r == ((k - 1) * (P - 1) * b * rd) % den
       IN IF k > 1 /\ (r <= den \div tol \/ den - r <= den \div tol) THEN 1 ELSE 0)
TooSmall(j) == Len(j) < 2
Offset(L) == (L - 2) \div 2
Terms(a, b, rn, rd, P, tol) ==
  LET j == Sampled(a, b, rn, rd, P)
  IN [j |-> j, amb |-> Doubtful(a, b, rn, rd, P, tol), off |-> Offset(Len(j)), small |-> TooSmall(j)]

\* coefficient n (0-based), without the factor -sqrt(scale): sum_m x[m] (G[off + n + 1 - m] - G[off + n - m])
GAt(g, i) == IF i \in 0..(Len(g) - 1) THEN g[i + 1] ELSE 0
CwtAt(x, g, n) ==
  LET o == Offset(Len(g))
  IN FoldLeftDomain(LAMBDA acc, m : acc + x[m] * (GAt(g, o + n + 1 - (m - 1)) - GAt(g, o + n - (m - 1))), 0, x)
CwtRow(x, g) == Tab(Len(x), LAMBDA i : CwtAt(x, g, i - 1))

\* result type: complex exactly when data or wavelet is
CwtType(dt, cplx) ==
  LET single == dt \in {"float32", "complex64"}
  IN IF cplx \/ dt \in {"complex64", "complex128"} THEN (IF single THEN "complex64" ELSE "complex128")
     ELSE IF single THEN "float32" ELSE "float64"
=============================================================================
