------------------------------- MODULE Contin -------------------------------
(* The continuous wavelets' closed forms, as expressions                             *)
(*   << "x" >>, << "int", n >>, << "pi" >>, << "par", name >>,                        *)
(*   << op, e1, .. >> with op in neg add mul div sqrt exp cos sin pow                  *)
(* and the derivation of the Gaussian families: polynomials by the product rule,        *)
(* constants from the Gaussian moments so that every member has unit norm.               *)
EXTENDS Util

X == << "x" >>
Pi == << "pi" >>
K(n) == << "int", n >>
P(s) == << "par", s >>
NegE(a) == << "neg", a >>
AddE(a, b) == << "add", a, b >>
Mul(a, b) == << "mul", a, b >>
Div(a, b) == << "div", a, b >>
Sqrt(a) == << "sqrt", a >>
Exp(a) == << "exp", a >>
Cos(a) == << "cos", a >>
Sin(a) == << "sin", a >>
PowE(a, n) == << "pow", a, n >>
Sq(a) == PowE(a, K(2))
Sinc(a) == << "sinc", a >>                 \* sin(pi a) / (pi a), one at zero

(* polynomials in y = 2x, complex coefficients << re, im >>, lowest power first.        *)
(* d/dx (Q(y) e^(-c i x) e^(-x^2)) = (2 Q'(y) - (y + c i) Q(y)) e^(..) e^(..)             *)
At(q, k) == IF k \in 1..Len(q) THEN q[k] ELSE << 0, 0 >>
Derive(q, c) ==
  Tab(Len(q) + 1, LAMBDA k :      \* coefficient of y^(k-1)
    LET d == At(q, k + 1)
        lo == At(q, k - 1)
        s == At(q, k)
    IN << 2 * k * d[1] - lo[1] + c * s[2], 2 * k * d[2] - lo[2] - c * s[1] >>)
RECURSIVE Poly(_, _)
Poly(n, c) == IF n = 0 THEN << << 1, 0 >> >> ELSE Derive(Poly(n - 1, c), c)

\* sum of the moments of |Q|^2: y^(2m) has weight (2m - 1)!! relative to the integral of e^(-2 x^2)
RECURSIVE DoubleFact(_)
DoubleFact(n) == IF n <= 1 THEN 1 ELSE n * DoubleFact(n - 2)
Norm2(q) ==
  LET n == Len(q)
      co(m) == FoldLeftDomain(LAMBDA acc, i :
                 LET j == m - (i - 1) + 1 IN acc + (IF j \in 1..n THEN q[i][1] * q[j][1] + q[i][2] * q[j][2] ELSE 0), 0, q)
  IN FoldLeft(LAMBDA acc, m : acc + co(2 * m) * DoubleFact(2 * m - 1), 0, [z \in 1..n |-> z - 1])

PolyE(q, part) ==      \* Horner is left to the reader: a sum of terms
  FoldLeft(LAMBDA e, k : IF q[k][part] = 0 THEN e
             ELSE AddE(e, Mul(K(q[k][part]), IF k = 1 THEN K(1) ELSE PowE(Mul(K(2), X), K(k - 1)))), K(0), [z \in 1..Len(q) |-> z])
Bell == Exp(NegE(Sq(X)))
Unit(q) == Sqrt(Mul(K(Norm2(q)), Sqrt(Div(Pi, K(2)))))

GausSign(n) == IF n % 4 \in {0, 1} THEN 1 ELSE -1
Gaus(n) == LET q == Poly(n, 0) IN [re |-> Div(Mul(K(GausSign(n)), Mul(PolyE(q, 1), Bell)), Unit(q))]
Cgau(n) ==
  LET q == Poly(n, 1)
      f(e) == Div(Mul(e, Bell), Unit(q))
  IN [re |-> f(AddE(Mul(PolyE(q, 1), Cos(X)), Mul(PolyE(q, 2), Sin(X)))),
      im |-> f(AddE(Mul(PolyE(q, 2), Cos(X)), NegE(Mul(PolyE(q, 1), Sin(X)))))]
HalfSq == Div(Sq(X), K(2))
Mexh == [re |-> Mul(Mul(AddE(K(1), NegE(Sq(X))), Exp(NegE(HalfSq))), Div(K(2), Mul(Sqrt(K(3)), Sqrt(Sqrt(Pi)))))]
Morl == [re |-> Mul(Cos(Mul(K(5), X)), Exp(NegE(HalfSq)))]
Turn == Mul(Mul(K(2), Pi), Mul(P("C"), X))
Wave(e) == [re |-> Mul(e, Cos(Turn)), im |-> Mul(e, Sin(Turn))]
Shan == Wave(Mul(Sqrt(P("B")), Sinc(Mul(P("B"), X))))
Fbsp == Wave(Mul(Sqrt(P("B")), PowE(Sinc(Div(Mul(P("B"), X), P("M"))), P("M"))))
Cmor == Wave(Div(Exp(NegE(Div(Sq(X), P("B")))), Sqrt(Mul(Pi, P("B")))))

Form(fam, n) ==
  CASE fam = "gaus" -> Gaus(n) [] fam = "cgau" -> Cgau(n) [] fam = "mexh" -> Mexh [] fam = "morl" -> Morl
    [] fam = "shan" -> Shan [] fam = "fbsp" -> Fbsp [] fam = "cmor" -> Cmor
All == Tab(8, LAMBDA n : [fam |-> "gaus", n |-> n, f |-> Form("gaus", n)])
       \o Tab(8, LAMBDA n : [fam |-> "cgau", n |-> n, f |-> Form("cgau", n)])
       \o Map(LAMBDA s : [fam |-> s, n |-> 0, f |-> Form(s, 0)], << "mexh", "morl", "shan", "fbsp", "cmor" >>)
=============================================================================
