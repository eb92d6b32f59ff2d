-------------------------------- MODULE Bank --------------------------------
(* Two-channel filter banks in exact fixed-point arithmetic.                          *)
(* A tap is [s |-> sign, m |-> text identifying its magnitude exactly,                *)
(*           l |-> limbs of trunc(magnitude * 2^110)], least significant first,       *)
(* radix 1024.  Numbers are sequences of limbs; after Norm all limbs but the last     *)
(* are in 0..1023 and the last one carries the sign.                                  *)
EXTENDS Util

Radix == 1024
\* one pass of carrying, accumulator [r |-> limbs, c |-> carry]
Norm(a) ==
  LET st == FoldLeft(LAMBDA acc, v : LET w == v + acc.c IN [r |-> Append(acc.r, w % Radix), c |-> w \div Radix],
                     [r |-> << >>, c |-> 0], SubSeq(a, 1, Len(a) - 1))
  IN Append(st.r, a[Len(a)] + st.c)
NonNeg(a) == a[Len(a)] >= 0                 \* of a normalised number
Neg(a) == Map(LAMBDA v : -v, a)
Absolute(a) == LET n == Norm(a) IN IF NonNeg(n) THEN n ELSE Norm(Neg(n))
Plus(a, b) == Norm(AddSeq(a, b))
Times(a, k) == Norm(ScaleSeq(k, a))         \* small k >= 0
Shift(a, q) == Zeros(q) \o a                \* multiply by Radix^q
Pad(a, n) == a \o Zeros(n - Len(a))
\* a <= b for non-negative normalised numbers of equal length
Leq(a, b) == NonNeg(Norm(AddSeq(b, Neg(a))))
\* |a| * 2^bits <= b
Within(a, bits, b) ==
  LET q == bits \div 10
      x == Times(Append(Absolute(a), 0), Pow2(bits % 10))
      y == Pad(b, Len(x) + q)
  IN Leq(Shift(x, q), y)
\* |a| < 2^(10*point - bits): the number, having point limbs after the binary point, is smaller than 2^-bits
Below(a, point, bits) ==
  LET x == Absolute(a)
      one == Tab(Len(x) + 1 + (bits \div 10), LAMBDA i : IF i = point + 1 THEN 1 ELSE 0)
  IN Leq(Shift(Times(Append(x, 0), Pow2(bits % 10)), bits \div 10), one)

\* ---------------------------------------------------------------- taps
Coarse(t) == SubSeq(t.l, 6, 12)             \* 60 bits after the point
SignedLimbs(t) == Append(ScaleSeq(t.s, t.l), 0)

\* sum over j of f[j + k] * g[j] (0 outside) of sequences of signed coarse limbs, 120 bits after the point
CorrC(cf, cg, k) ==
  LET lo == Max2(1, 1 - k)
      hi == Min2(Len(cg), Len(cf) - k)
      RECURSIVE InnerJ(_, _, _, _)
      InnerJ(j, p, q, acc) == IF j > hi THEN acc ELSE InnerJ(j + 1, p, q, acc + cf[j + k][p] * cg[j][q])
      RECURSIVE InnerP(_, _, _)
      InnerP(c, p, acc) == IF p > Min2(7, c) THEN acc ELSE InnerP(c, p + 1, acc + InnerJ(lo, p, c + 1 - p, 0))
  IN Norm(Tab(15, LAMBDA c : IF c > 13 THEN 0 ELSE InnerP(c, Max2(1, c - 6), 0)))
SC(f) == Map(LAMBDA t : ScaleSeq(t.s, Coarse(t)), f)
Corr(f, g, k) == CorrC(SC(f), SC(g), k)
DeltaErr(v, d) == Tab(15, LAMBDA i : IF i = 13 THEN v[i] - d ELSE v[i])      \* minus d (limb 13 = units)
Rev(f) == RevSeq(f)

\* sum over j of f[j] * 1
SumTaps(f) == Norm(FoldLeft(LAMBDA acc, t : AddSeq(acc, SignedLimbs(t)), Zeros(13), f))
\* square of the sum against two: the sum is sqrt 2 -- stated without a root, with 60 bits
SumSquare(f) ==
  LET s == Absolute(SumTaps(f))
      c == SubSeq(s, 6, 12)
  IN Norm(Tab(15, LAMBDA i : IF i > 13 THEN 0 ELSE
        FoldSet(LAMBDA p, a : a + c[p + 1] * c[i - 1 - p + 1], 0, {p \in 0..6 : i - 1 - p \in 0..6})))

\* repeated prefix sums: the polynomial of f is divisible by (z - 1)^p iff the last prefix sum vanishes p times
PrefixSums(f) ==
  FoldLeft(LAMBDA st, v : LET a == Plus(st.a, v) IN [a |-> a, r |-> Append(st.r, a)], [a |-> Zeros(20), r |-> << >>], f).r
\* orders p = 1..n in which the binomial moments of f vanish to the given relative accuracy
RECURSIVE Vanish(_, _, _, _)
Vanish(f, g, n, bits) ==
  IF n = 0 THEN TRUE
  ELSE LET pf == PrefixSums(f)
           pg == PrefixSums(g)
       IN IF Within(Last1(pf), bits, Last1(pg)) THEN Vanish(pf, pg, n - 1, bits) ELSE FALSE
VanishTaps(h, n, bits) ==
  Vanish(Map(LAMBDA t : Norm(Pad(SignedLimbs(t), 20)), h), Map(LAMBDA t : Norm(Pad(t.l, 20)), h), n, bits)

\* ---------------------------------------------------------------- relations between filters, tap by tap
Same(a, b) == a.m = b.m /\ a.s = b.s
Opp(a, b) == a.m = b.m /\ a.s = -b.s
SameSeq(f, g) == Len(f) = Len(g) /\ \A j \in DOMAIN f : Same(f[j], g[j])
Modulated(f, g, first) ==                   \* f[j] = first * (-1)^j g[j], j from 0
  Len(f) = Len(g) /\ \A j \in DOMAIN f : IF (j % 2 = 1) = (first = 1) THEN Same(f[j], g[j]) ELSE Opp(f[j], g[j])
RECURSIVE Lead(_)
Lead(f) == IF f = << >> \/ f[1].s # 0 THEN f ELSE Lead(Tail(f))
Core(f) == RevSeq(Lead(RevSeq(Lead(f))))
Palindrome(f) == LET c == Core(f) IN SameSeq(c, RevSeq(c))
AntiPalin(f) == LET c == Core(f) IN \A j \in DOMAIN c : Opp(c[j], c[Len(c) + 1 - j])

\* ---------------------------------------------------------------- the bank identities
\* synthesis after analysis is the identity: even lags of the product filters
Lags(F) == {k \in (1 - F)..(F - 1) : k % 2 = 0}
Unit(k) == IF k = 0 THEN 1 ELSE 0
DualC(cf, cg, bits) == \A k \in Lags(Len(cf)) : Below(DeltaErr(CorrC(cf, cg, k), Unit(k)), 12, bits)
CrossC(cf, cg, bits) == \A k \in Lags(Len(cf)) : Below(CorrC(cf, cg, k), 12, bits)
PRBank(dl, dh, rl, rh, bits) ==
  LET a == SC(dl)
      b == SC(dh)
      c == SC(Rev(rl))
      d == SC(Rev(rh))
  IN DualC(a, c, bits) /\ DualC(b, d, bits) /\ CrossC(a, d, bits) /\ CrossC(b, c, bits)
\* negative lags repeat the positive ones
SelfC(cf, bits) == \A k \in {z \in Lags(Len(cf)) : z >= 0} : Below(DeltaErr(CorrC(cf, cf, k), Unit(k)), 12, bits)
Orthonormal(dl, dh, bits) ==
  LET a == SC(dl)
      b == SC(dh)
  IN SelfC(a, bits) /\ SelfC(b, bits) /\ CrossC(a, b, bits)
\* with companions that are exact copies up to order and sign, the low-pass filter alone decides
OrthonormalLow(dl, bits) == SelfC(SC(dl), bits)
=============================================================================
