------------------------------- MODULE Cascade -------------------------------
(* Scaling functions and wavelets as n-fold cascades of the synthesis filters.       *)
(* All values are in units of sqrt(2)^level: wavefun multiplies by that number so      *)
(* that the limit has unit norm.  The sample at index i of a result lies at i / 2^level. *)
EXTENDS Dwt

\* samples of a cascade of level n of a filter of F taps
CascLen(F, n) == (Pow2(n) - 1) * (F - 1) + 1
\* samples of the grid: the support [0, F - 1], at least one zero on either side
GridLen(F, n, orth) ==
  LET o == (F - 1) * Pow2(n) + (IF orth THEN 1 ELSE 0)
  IN Max2(o, CascLen(F, n) + 2)

Casc(part, bank, n) == UpCoefFull(part, << 1 >>, bank, n)
OnGrid(v, F, n, orth) == << 0 >> \o v \o Zeros(GridLen(F, n, orth) - CascLen(F, n) - 1)

\* the other pair of a biorthogonal bank: its synthesis filters are the reversed analysis filters
Other(b) == [b EXCEPT !.dl = RevSeq(b.rl), !.dh = RevSeq(b.rh), !.rl = RevSeq(b.dl), !.rh = RevSeq(b.dh)]

(* << phi, psi >> for orthogonal banks; otherwise both pairs, decomposition first.     *)
(* The sign of the wavelets of a biorthogonal bank is that of the published functions:  *)
(* kept when its number of vanishing moments is 1 mod 4.                                *)
PsiSign(orth, biorth, pm) == IF ~orth /\ biorth /\ pm % 4 # 1 THEN -1 ELSE 1
WaveFun(b, n, orth, biorth, pm) ==
  LET F == FLen(b)
      g(v) == OnGrid(v, F, n, orth)
      s == PsiSign(orth, biorth, pm)
      o == Other(b)
  IN IF orth THEN << g(Casc("a", b, n)), g(Casc("d", b, n)) >>
     ELSE << g(Casc("a", o, n)), g(ScaleSeq(s, Casc("d", o, n))), g(Casc("a", b, n)), g(ScaleSeq(s, Casc("d", b, n))) >>
Grid(F, n, orth) == Tab(GridLen(F, n, orth), LAMBDA i : i - 1)

\* running integral by the rectangle rule, in units of the step
Running(v) == FoldLeft(LAMBDA acc, z : [t |-> acc.t + z, r |-> Append(acc.r, acc.t + z)], [t |-> 0, r |-> << >>], v).r
Integrals(b, n, orth, biorth, pm) ==
  LET w == WaveFun(b, n, orth, biorth, pm)
  IN IF orth THEN << Running(w[2]) >> ELSE << Running(w[2]), Running(w[4]) >>

(* the same functions by the two-scale relation, coarse step last:                     *)
(*   phi_n(i) = sum_j g_j phi_(n-1)(i - j 2^(n-1)),  psi_n likewise with h              *)
Refined(g, prev, n) ==
  LET F == Len(g)
      st == Pow2(n - 1)
  IN Tab(CascLen(F, n), LAMBDA ii :
       FoldLeftDomain(LAMBDA acc, j : LET p == ii - (j - 1) * st IN acc + (IF p \in 1..Len(prev) THEN g[j] * prev[p] ELSE 0), 0, g))
=============================================================================
