---------------------------------- MODULE Nd ---------------------------------
(* n-dimensional integer arrays [s |-> shape, d |-> data in C order] and       *)
(* lifting of 1-D operators along an axis (axes are 0-based).                   *)
EXTENDS Util

Size(shape) == Prod(shape)
Rank(A) == Len(A.s)
Vec(x) == [s |-> <<Len(x)>>, d |-> x]
NormAxis(ax, n) == IF ax < 0 THEN ax + n ELSE ax
NormAxes(axes, n) == Map(LAMBDA ax : NormAxis(ax, n), axes)

Stride(shape, ax) == Prod(SubSeq(shape, ax + 2, Len(shape)))
(* 0-based coordinate along axis ax of flat offset p (0-based) *)
Coord(shape, p, ax) == (p \div Stride(shape, ax)) % shape[ax + 1]
Offset(shape, c) == Sum(Tab(Len(shape), LAMBDA a : c[a] * Stride(shape, a - 1)))

ZeroArr(shape) == [s |-> shape, d |-> Zeros(Size(shape))]
AddArr(A, B) == [s |-> A.s, d |-> AddSeq(A.d, B.d)]
ScaleArr(c, A) == [s |-> A.s, d |-> ScaleSeq(c, A.d)]

(* the line through (pre, post): elements pre*mid*post + t*post + q *)
Line(A, ax, pre, q) ==
  LET mid == A.s[ax + 1]
      st  == Stride(A.s, ax)
  IN Tab(mid, LAMBDA t : A.d[pre * mid * st + (t - 1) * st + q + 1])

AlongAxis(F(_), A, ax) ==
  LET mid == A.s[ax + 1]
      st  == Stride(A.s, ax)
      npre == Prod(SubSeq(A.s, 1, ax))
      lines == Tab(npre * st, LAMBDA z : F(Line(A, ax, (z - 1) \div st, (z - 1) % st)))
      m2  == IF npre * st = 0 THEN Len(F(Zeros(mid))) ELSE Len(lines[1])
      shp == [A.s EXCEPT ![ax + 1] = m2]
  IN [s |-> shp,
      d |-> Tab(npre * m2 * st, LAMBDA zz :
              LET z == zz - 1
                  pre == z \div (m2 * st)
                  t == (z \div st) % m2
                  q == z % st
              IN lines[pre * st + q + 1][t + 1])]

(* first n_ax samples along every axis (array never shorter) *)
TrimTo(A, shape) ==
  IF A.s = shape THEN A
  ELSE [s |-> shape,
        d |-> Tab(Size(shape), LAMBDA zz :
                A.d[Offset(A.s, Tab(Len(shape), LAMBDA a : Coord(shape, zz - 1, a - 1))) + 1])]

(* rectangular block: lo (inclusive), hi (exclusive) per axis *)
Block(A, lo, hi) ==
  LET shp == Tab(Len(lo), LAMBDA a : Max2(0, hi[a] - lo[a]))
  IN [s |-> shp,
      d |-> Tab(Size(shp), LAMBDA zz :
              A.d[Offset(A.s, Tab(Len(shp), LAMBDA a : lo[a] + Coord(shp, zz - 1, a - 1))) + 1])]

(* circular shift by r along axis ax: B[t] = A[t - r] *)
RollAxis(A, r, ax) ==
  AlongAxis(LAMBDA x : Tab(Len(x), LAMBDA t : x[((t - 1 - r) % Len(x)) + 1]), A, ax)

(* concatenation along an axis of a non-empty sequence of arrays *)
Concat(As, ax) ==
  LET base == As[1].s
      tot  == Sum(Map(LAMBDA A : A.s[ax + 1], As))
      shp  == [base EXCEPT ![ax + 1] = tot]
      cum  == Tab(Len(As), LAMBDA k : Sum(Tab(k - 1, LAMBDA z : As[z].s[ax + 1])))
      Which(t) == CHOOSE k \in 1..Len(As) : cum[k] <= t /\ t < cum[k] + As[k].s[ax + 1]
  IN [s |-> shp,
      d |-> Tab(Size(shp), LAMBDA zz :
              LET t == Coord(shp, zz - 1, ax)
                  k == Which(t)
                  c == Tab(Len(shp), LAMBDA a :
                         IF a - 1 = ax THEN t - cum[k] ELSE Coord(shp, zz - 1, a - 1))
              IN As[k].d[Offset(As[k].s, c) + 1])]
=============================================================================
