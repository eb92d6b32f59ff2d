--------------------------------- MODULE Swt ---------------------------------
(* Stationary (undecimated, a-trous, circular) transform and its inverse.       *)
(* Values of the inverse are returned multiplied by 2^(levels * axes): the      *)
(* averages over phases are kept as sums.                                       *)
EXTENDS Multi

SwtStep(x, h, sh, s) ==                       \* s = 2^(level - 1)
  LET N == Len(x)
      F == Len(h)
  IN Tab(N, LAMBDA n : ExactDiv(
       FoldLeftDomain(LAMBDA acc, j : acc + h[j] * x[((n - 1 + (F * s) \div 2 - (j - 1) * s) % N) + 1], 0, h), sh))

RECURSIVE SwtSubFrom(_, _, _, _, _, _)
SwtSubFrom(A, k, banks, axes, s, t) ==
  IF t > Len(axes) THEN A
  ELSE SwtSubFrom(AlongAxis(LAMBDA x : SwtStep(x, IF k[t] = "a" THEN banks[t].dl ELSE banks[t].dh,
                                               banks[t].ds, s), A, axes[t]), k, banks, axes, s, t + 1)

SwtLevelN(A, banks, axes, s) ==
  TLCEval([ks \in Keys(Len(axes)) |-> SwtSubFrom(A, KeyOf(Len(axes), ks), banks, axes, s, 1)])

(* levels start+1 .. start+n, coarsest first; every entry carries its approximation *)
RECURSIVE SwtN(_, _, _, _, _)
SwtN(A, banks, axes, level, start) ==
  IF level = 0 THEN << >>
  ELSE LET C == SwtLevelN(A, banks, axes, Pow2(start))
           aa == KeyStr(AllA(Len(axes)))
       IN Append(SwtN(C[aa], banks, axes, level - 1, start + 1), C)

SwtMaxLevel(n) == TwoAdic(n)
SwtMaxLevelN(shape, axes) == MinOver(Tab(Len(axes), LAMBDA t : SwtMaxLevel(shape[axes[t] + 1])))

-----------------------------------------------------------------------------
(* one axis, one level, one branch: sum (not average) over the two phases *)
IswtBranch(c, g, sh, s) ==
  LET N == Len(c)
      M == N \div (2 * s)
      Ph(f, o) == Tab(M, LAMBDA i : c[f + o * s + (i - 1) * 2 * s + 1])
      X1 == Tab(s, LAMBDA f : UpBranch(Ph(f - 1, 0), g, sh, "periodization"))
      X2 == Tab(s, LAMBDA f : UpBranch(Ph(f - 1, 1), g, sh, "periodization"))
  IN Tab(N, LAMBDA n :
       LET f == (n - 1) % s
           i == (n - 1) \div s
       IN X1[f + 1][i + 1] + X2[f + 1][((i - 1) % (2 * M)) + 1])

RECURSIVE IswtFrom(_, _, _, _, _, _)
IswtFrom(A, k, banks, axes, s, t) ==
  IF t = 0 THEN A
  ELSE IswtFrom(AlongAxis(LAMBDA c : IswtBranch(c, IF k[t] = "a" THEN banks[t].rl ELSE banks[t].rh,
                                                banks[t].rs, s), A, axes[t]), k, banks, axes, s, t - 1)

IswtLevelN(C, banks, axes, s) ==
  LET n == Len(axes)
      ks == SetToSeq({k \in KeySeqs(n) : KeyStr(k) \in DOMAIN C})
  IN SumArrs(Tab(Len(ks), LAMBDA i : IswtFrom(C[KeyStr(ks[i])], ks[i], banks, axes, s, n)))

(* cs: details per level, coarsest first; a: coarsest approximation.           *)
(* Result * 2^(levels * axes): details of finer levels are scaled up to match.  *)
RECURSIVE IswtN(_, _, _, _, _)
IswtN(a, cs, banks, axes, done) ==
  IF cs = << >> THEN a
  ELSE LET L == Len(cs)
           n == Len(axes)
           aa == KeyStr(AllA(n))
           D == Head(cs)
           C == [k \in (DOMAIN D \ {aa}) \cup {aa} |->
                   IF k = aa THEN a ELSE ScaleArr(Pow2(n * done), D[k])]
       IN IswtN(IswtLevelN(C, banks, axes, Pow2(L - 1)), Tail(cs), banks, axes, done + 1)
=============================================================================
