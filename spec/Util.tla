-------------------------------- MODULE Util --------------------------------
(* Finite-sequence arithmetic shared by every module of the specification.   *)
(* Sequences are 1-based (TLA+); the operators below take 0-based indices    *)
(* where the text says so, as the signals of the library are 0-based.        *)
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt

Max2(a, b) == IF a > b THEN a ELSE b
Min2(a, b) == IF a < b THEN a ELSE b
Abs(a)     == IF a < 0 THEN -a ELSE a
Sign(a)    == IF a > 0 THEN 1 ELSE IF a < 0 THEN -1 ELSE 0
CeilDiv(a, b) == -((-a) \div b)

RECURSIVE SumRange(_, _, _)
(* Sum of f[i], lo <= i <= hi, for a function f of integers. *)
SumRange(f, lo, hi) == IF lo > hi THEN 0 ELSE f[lo] + SumRange(f, lo + 1, hi)

Sum(s)  == FoldLeft(LAMBDA a, b : a + b, 0, s)
Prod(s) == FoldLeft(LAMBDA a, b : a * b, 1, s)
Last1(s) == s[Len(s)]

(* force: TLC builds the tuple once instead of re-evaluating a lazy function *)
Tab(n, Op(_)) == TLCEval([i \in 1..n |-> Op(i)])
Zeros(n)  == Tab(n, LAMBDA i : 0)
Repeat(n, v) == Tab(n, LAMBDA i : v)
AddSeq(a, b) == Tab(Len(a), LAMBDA i : a[i] + b[i])
ScaleSeq(c, a) == Tab(Len(a), LAMBDA i : c * a[i])
RevSeq(a) == Tab(Len(a), LAMBDA i : a[Len(a) + 1 - i])
(* 0-based half-open slice a[lo..hi-1] *)
Slice(a, lo, hi) == Tab(Max2(0, hi - lo), LAMBDA i : a[lo + i])
Map(Op(_), s) == Tab(Len(s), LAMBDA i : Op(s[i]))
RECURSIVE Pow2(_)
Pow2(n) == IF n = 0 THEN 1 ELSE 2 * Pow2(n - 1)
RECURSIVE Pow(_, _)
Pow(b, n) == IF n = 0 THEN 1 ELSE b * Pow(b, n - 1)
RECURSIVE Log2Floor(_)
Log2Floor(n) == IF n < 2 THEN 0 ELSE 1 + Log2Floor(n \div 2)
(* number of factors of two *)
RECURSIVE TwoAdic(_)
TwoAdic(n) == IF n < 1 \/ n % 2 = 1 THEN 0 ELSE 1 + TwoAdic(n \div 2)
Has(r, k) == k \in DOMAIN r
Get(r, k, dflt) == IF k \in DOMAIN r THEN r[k] ELSE dflt
RangeOf(s) == {s[i] : i \in DOMAIN s}
=============================================================================
