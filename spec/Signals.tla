------------------------------- MODULE Signals -------------------------------
(* The demo signals and the datasets.  A signal of n samples is a list of layers,        *)
(* [lo, hi, re (, im)]: samples lo..hi (from 1) take the value of an expression of module     *)
(* Contin in the sample number << "i" >>; later layers overwrite earlier ones, an              *)
(* expression << "again", c >> is the value sample c - i had before the layer.  Everything      *)
(* that depends on the length (where pieces begin and end) is integer arithmetic here.           *)
EXTENDS Contin

I == << "i" >>
Dec(p, q) == Div(K(p), K(q))
Sub(a, b) == AddE(a, NegE(b))
SignE(a) == << "sign", a >>
AbsE(a) == << "abs", a >>
In(lo, hi) == << "in", lo, hi >>             \* 1 for lo <= i <= hi, otherwise 0
Again(c) == << "again", c >>
ModE(a, n) == << "mod", a, n >>
M == << "m" >>
SumE(n, e) == << "sum", n, e >>               \* m = 1 .. n
Shift(c) == AddE(I, K(c))                      \* i + c
Back(c) == Sub(K(c), I)                         \* c - i
T(n) == Div(I, K(n))
Total(s) == FoldLeft(LAMBDA e, x : AddE(e, x), s[1], Tail(s))
Pie(p, q) == Mul(Pi, Dec(p, q))
All1(n, e) == << [lo |-> 1, hi |-> n, re |-> e] >>
L(lo, hi, e) == [lo |-> lo, hi |-> hi, re |-> e]

Pos == << 10, 13, 15, 23, 25, 40, 44, 65, 76, 78, 81 >>                  \* hundredths
HBlocks == << 40, -50, 30, -40, 50, -42, 21, 43, -31, 21, -42 >>           \* tenths
HBumps == << 40, 50, 30, 40, 50, 42, 21, 43, 31, 51, 42 >>
WBumps == << 5, 5, 6, 10, 10, 30, 10, 10, 5, 8, 5 >>                         \* thousandths
BlocksE(n) == Total(Tab(11, LAMBDA k : Div(Mul(Dec(HBlocks[k], 10), AddE(K(1), SignE(Sub(T(n), Dec(Pos[k], 100))))), K(2))))
BumpsE(n) == Total(Tab(11, LAMBDA k :
   Div(Dec(HBumps[k], 10), PowE(AddE(K(1), AbsE(Div(Sub(T(n), Dec(Pos[k], 100)), Dec(WBumps[k], 1000)))), K(4)))))
\* sin of pi p/q n t^k
Chirp(n, p, q, k) == Sin(Mul(Mul(Pie(p, q), PowE(T(n), K(k))), K(n)))
HiSineE(n) == Chirp(n, 6902, 10000, 1)

\* a cosine bell of p samples up, p samples down, in samples first .. last
Rise(e, p) == Div(AddE(K(1), Sin(AddE(NegE(Pie(1, 2)), Mul(Div(e, K(Max2(p - 1, 1))), Pi)))), K(2))
Bell1(first, last, p) == Total(<< Mul(In(first, first + p - 1), Rise(Shift(-first), p)), In(first + p, last - p),
                                  Mul(In(last - p + 1, last), Rise(Back(last), p)) >>)

HypM(n) == ((13 * n) + 10) \div 20                          \* .65 n rounded
HypHalf(n) == n % 20 = 10                                     \* .65 n is half way: the rounding is not specified
Hyp(n) ==
  LET t == Div(AddE(I, Dec(1, 1000)), K(n))
      w(p) == Sin(Div(Mul(Pie(p * n, 1024), K(1)), Sub(Dec(8, 10), t)))
      \* first and last i with  p/100 n < i + 1/1000  and  i + 1/1000 < q/100 n
      from(p) == (((10 * p * n) - 1) \div 1000) + 1
      upto(q) == ((10 * q * n) - 2) \div 1000
      c == CeilDiv(n, 10)
      m == HypM(n)
  IN All1(n, Mul(AddE(Mul(In(from(10), upto(68)), w(15)), Mul(In(from(10), upto(75)), w(5))), Bell1(c, c + m - 1, m \div 4)))
Lin(n) ==
  LET t == T(n)
      a == Mul(Pie(250 * n, 1024), Sq(t))
      b == Mul(Pie(100 * n, 1024), t)
  IN All1(n, Mul(Sqrt(Mul(Sub(t, Dec(1, n)), Sub(K(1), t))), AddE(Cos(a), Cos(AddE(b, a)))))
Mixed(n) ==
  LET g(off) == Exp(NegE(Mul(Sq(Mul(Div(Shift(off - n - 1), K(n)), K(20))), Dec(4 * n, 1024))))
      u == Mul(Mul(T(n), K(10)), Pi)
      v == Mul(Div(Back(n + 1), K(n)), Pi)
  IN All1(n, Mul(Total(<< Cos(Mul(Sq(u), Dec(n, 1024))), Cos(Mul(PowE(v, K(3)), Dec(30 * n, 1024))),
                          Mul(g(n \div 2), Cos(Mul(Pie(50, 1024), I))), Mul(g(n \div 8), Cos(Mul(Pie(350, 1024), I))) >>),
                 Bell1(1, n, n \div 8)))
GaborL ==
  LET g(off) == Mul(K(3), Exp(NegE(Mul(Sq(Div(Mul(Shift(off - 513), K(5)), K(512))), K(20)))))
      ph(q) == Div(Mul(Mul(K(q), Pi), I), K(512))
      part(F(_)) == AddE(Mul(g(256), F(ph(32))), Mul(g(128), F(ph(128))))
  IN << [lo |-> 1, hi |-> 512, re |-> part(Cos), im |-> part(Sin)] >>
OneOver ==
  LET f(x) == Sin(Div(Dec(3, 2), Div(x, K(1023))))
  IN << L(1, 511, f(Shift(-512))), L(512, 512, f(Dec(1, 100))), L(513, 1024, f(Shift(-512))) >>
Regular(n) ==
  LET n12 == n \div 12  n7 == n \div 7  n5 == n \div 5  n3 == n \div 3  n2 == n \div 2  n20 == n \div 20
      k == n2 + (2 * n12) + (3 * n20)
      hill == Mul(K(-70), Exp(NegE(Div(Sq(Sub(Div(I, K(n3)), Dec(1, 2))), Mul(K(2), Sq(Dec(6, 40)))))))
      grow(e, q) == Exp(Mul(K(4), Div(e, K(q))))
  IN << L(1, n7, hill), L(n7 + 1, n5, Div(hill, K(2))), L(n5 + 1, n3, hill), L(n3 + 1, n2, Mul(K(-15), BumpsE(n))),
        L(n2 + 1, n2 + n12, NegE(grow(Shift(-n2), n12))), L(n2 + n12 + 1, n2 + (2 * n12), NegE(grow(Back(n2 + (2 * n12) + 1), n12))),
        L(n2 + (2 * n12) + n20 + 1, k, K(-25)), L(k + 1, k + n7, Sub(grow(Shift(-k), n7), Exp(K(4)))),
        L((5 * n5) + 1, n, Again(n + 1)) >>
Polynomial(n) ==
  LET n5 == n \div 5  n10 == n \div 10  n20 == n \div 20
      t(e) == Div(e, K(n5))
      c(e) == PowE(e, K(3))
      a == t(I)  b == t(Back((2 * n5) + 1))  d == t(Shift(-(2 * n5)))  e == t(Shift(-(3 * n5)))  g == t(Back((5 * n5) + 1))
  IN << L(1, n5, Mul(K(20), Total(<< c(a), Sq(a), K(4) >>))),
        L(n5 + 1, 2 * n5, AddE(Mul(K(10), c(b)), K(45))),
        L((2 * n5) + 1, 3 * n5, AddE(Mul(K(40), AddE(Mul(K(2), c(d)), d)), K(100))),
        L((3 * n5) + 1, 4 * n5, Total(<< Mul(K(16), Sq(e)), Mul(K(8), e), K(16) >>)),
        L((4 * n5) + 1, 5 * n5, Mul(K(20), AddE(g, K(4)))),
        L((5 * n5) + 1, n, Again(n + 1)),
        L(n20 + 1, n20 + n10, K(10)),
        L(n - n10 + 1, n - n10 + n20, K(150)) >>
RECURSIVE Root(_, _)
Root(n, k) == IF (k + 1) * (k + 1) > n THEN k ELSE Root(n, k + 1)
Isqrt(n) == Root(n, 0)
RiemannE(n) == Div(SumE(Isqrt(n), Div(Cos(Div(Mul(Mul(K(2), Pi), ModE(Mul(Sub(Mul(M, M), K(1)), Shift(-1)), n)), K(n))), M)), K(n))

Listed == << "Blocks", "Bumps", "HeaviSine", "Doppler", "Ramp", "HiSine", "LoSine", "LinChirp", "TwoChirp", "QuadChirp", "MishMash",
             "WernerSorrows", "HypChirps", "LinChirps", "Chirps", "Gabor", "sineoneoverx", "Piece-Regular", "Piece-Polynomial", "Riemann" >>
Fixed == [s \in { "Gabor", "sineoneoverx" } |-> IF s = "Gabor" THEN 512 ELSE 1024]
Free == { s \in RangeOf(Listed) : s \notin DOMAIN Fixed }
Layers(s, n) ==
  CASE s = "Blocks" -> All1(n, BlocksE(n))
    [] s = "Bumps" -> All1(n, BumpsE(n))
    [] s = "HeaviSine" -> All1(n, Total(<< Mul(K(4), Sin(Mul(Mul(K(4), Pi), T(n)))), NegE(SignE(Sub(T(n), Dec(3, 10)))), NegE(SignE(Sub(Dec(72, 100), T(n)))) >>))
    [] s = "Doppler" -> All1(n, Mul(Sqrt(Mul(T(n), Sub(K(1), T(n)))), Sin(Div(Pie(210, 100), AddE(T(n), Dec(5, 100))))))
    [] s = "Ramp" -> All1(n, Sub(T(n), In(CeilDiv(37 * n, 100), n)))
    [] s = "HiSine" -> All1(n, HiSineE(n))
    [] s = "LoSine" -> All1(n, Chirp(n, 3333, 10000, 1))
    [] s = "LinChirp" -> All1(n, Chirp(n, 1, 2, 2))
    [] s = "TwoChirp" -> All1(n, AddE(Chirp(n, 1, 1, 2), Chirp(n, 1, 3, 2)))
    [] s = "QuadChirp" -> All1(n, Chirp(n, 1, 3, 3))
    [] s = "MishMash" -> All1(n, Total(<< Chirp(n, 1, 3, 3), HiSineE(n), Chirp(n, 1, 8, 2) >>))
    [] s = "WernerSorrows" -> All1(n, Total(<< Chirp(n, 1, 2, 3), HiSineE(n), Chirp(n, 1, 1, 2), BumpsE(n) >>))
    [] s = "HypChirps" -> Hyp(n)
    [] s = "LinChirps" -> Lin(n)
    [] s = "Chirps" -> Mixed(n)
    [] s = "Gabor" -> GaborL
    [] s = "sineoneoverx" -> OneOver
    [] s = "Piece-Regular" -> Regular(n)
    [] s = "Piece-Polynomial" -> Polynomial(n)
    [] s = "Riemann" -> All1(n, RiemannE(n))
\* what is done last: nothing, the mean taken off, the mean taken off and the sign turned
Finish(s) == CASE s = "Piece-Regular" -> "flip" [] s = "Piece-Polynomial" -> "center" [] OTHER -> "none"

(* ------------------------------------------------------------------ requests *)
\* n: "none", or [num, den] a rational number
Answer(s, n) ==
  IF s = "list" THEN "names"
  ELSE IF s \notin RangeOf(Listed) THEN "ValueError"
  ELSE IF n = << >> THEN (IF s \in DOMAIN Fixed THEN "signal" ELSE "ValueError")
  ELSE IF s \in DOMAIN Fixed THEN "ValueError"
  ELSE IF n[2] # 1 \/ n[1] < 1 THEN "ValueError" ELSE "signal"

(* ------------------------------------------------------------------ datasets *)
\* shape and kind of each array a loader returns; a file is delivered as it is, or (nino) as
\* quarters: means of three months of column 5, their mean taken off, in units of their deviation
Datasets == << [name |-> "ascent", file |-> "ascent", arrays |-> << [shape |-> << 512, 512 >>, dtype |-> "uint8"] >>],
               [name |-> "aero", file |-> "aero", arrays |-> << [shape |-> << 512, 512 >>, dtype |-> "uint8"] >>],
               [name |-> "camera", file |-> "camera", arrays |-> << [shape |-> << 512, 512 >>, dtype |-> "uint8"] >>],
               [name |-> "ecg", file |-> "ecg", arrays |-> << [shape |-> << 1024 >>, dtype |-> "int32"] >>],
               [name |-> "nino", file |-> "sst_nino3", arrays |-> << [shape |-> << 264 >>, dtype |-> "float64"], [shape |-> << 264 >>, dtype |-> "float64"] >>] >>
Quarters == << 1950, 4 >>            \* the first, and how many in a year
=============================================================================
