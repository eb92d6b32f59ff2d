------------------------------- MODULE Energy -------------------------------
(* Orthogonal banks with integer taps, made by rotations, and what they do to inner        *)
(* products: a bank of gain g multiplies them by g at every decimated level and axis,        *)
(* by 2 g at every stationary one.                                                        *)
EXTENDS Swt

\* << a, b >> is a rotation up to its length; every further one delays the second channel by two
RECURSIVE Lattice(_)
Lattice(rs) ==
  IF Len(rs) = 1 THEN [l |-> rs[1], h |-> << rs[1][2], -rs[1][1] >>]
  ELSE LET B == Lattice(SubSeq(rs, 1, Len(rs) - 1))
           a == Last1(rs)[1]  b == Last1(rs)[2]
           z == << 0, 0 >>
           l == B.l \o z
           h == z \o B.h
       IN [l |-> AddSeq(ScaleSeq(a, l), ScaleSeq(-b, h)), h |-> AddSeq(ScaleSeq(b, l), ScaleSeq(a, h))]
OrthBank(rs) == LET B == Lattice(rs) IN
  [dl |-> B.l, dh |-> B.h, rl |-> RevSeq(B.l), rh |-> RevSeq(B.h), ds |-> 0, rs |-> 0]
Gain(rs) == Prod(Map(LAMBDA r : (r[1] * r[1]) + (r[2] * r[2]), rs))

Dot(x, y) == Sum(Tab(Len(x), LAMBDA i : x[i] * y[i]))
\* leaves: << level, array, array >>; every leaf in units of the deepest, D
Weighted(leaves, g, naxes, D) == Sum(Map(LAMBDA f : Pow(g, naxes * (D - f[1])) * Dot(f[2], f[3]), leaves))
\* the bands partition the signal's inner product
Parseval(leaves, g, naxes, D, x, y) == Weighted(leaves, g, naxes, D) = Pow(g, naxes * D) * Dot(x, y)
=============================================================================
