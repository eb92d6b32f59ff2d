---------------------------------- MODULE Mra ---------------------------------
(* Stationary transforms as calls, and multiresolution analysis: every component is *)
(* the inverse transform of the decomposition with all other coefficients zero.      *)
EXTENDS Pack

SwtLevelOf(r, shape, ax) == IF r.level >= 0 THEN r.level ELSE SwtMaxLevelN(shape, ax)
TrimForm(C, aa) ==                     \* final approximation once, then details only
  << C[1][aa] >> \o Tab(Len(C), LAMBDA j : TLCEval([k \in DOMAIN C[j] \ {aa} |-> C[j][k]]))
SwtForm(C, n, trim) == IF trim THEN TrimForm(C, KeyStr(AllA(n))) ELSE C

ZeroLike(A) == ZeroArr(A.s)
Zeroed(cs) == Tab(Len(cs), LAMBDA j : IF j = 1 THEN ZeroLike(cs[1]) ELSE TLCEval([k \in DOMAIN cs[j] |-> ZeroLike(cs[j][k])]))
\* only entry j (subband k when j > 1) kept
Only(cs, j, k) ==
  LET z == Zeroed(cs)
  IN Tab(Len(cs), LAMBDA i : IF i # j THEN z[i]
       ELSE IF i = 1 THEN cs[1] ELSE TLCEval([q \in DOMAIN cs[i] |-> IF q = k THEN cs[i][q] ELSE z[i][q]]))
MraParts(cs, Inv(_)) ==
  Tab(Len(cs), LAMBDA j : IF j = 1 THEN Inv(Only(cs, 1, "")) ELSE TLCEval([k \in DOMAIN cs[j] |-> Inv(Only(cs, j, k))]))
\* stationary: times 2^(levels * axes), as IswtN
MraSwt(A, banks, ax, level) ==
  LET cs == SwtForm(SwtN(A, banks, ax, level, 0), Len(ax), TRUE)
  IN MraParts(cs, LAMBDA c : IswtN(c[1], Tail(c), banks, ax, 0))
MraDwt(A, banks, modes, ax, level) ==
  LET cs == WaveDecN(A, banks, modes, ax, level)
  IN MraParts(cs, LAMBDA c : TrimTo(WaveRecN(c, banks, modes, ax), A.s))
FlatParts(ps) == FlattenSeq(Tab(Len(ps), LAMBDA j : IF j = 1 THEN << ps[1] >>
                   ELSE LET ks == SetToSeq(DOMAIN ps[j]) IN Tab(Len(ks), LAMBDA i : ps[j][ks[i]])))
MraSum(ps) == SumArrs(FlatParts(ps))

MraValue(r) ==
  CASE r.op = "swt" ->
         LET A == r.in.x  ax == NormAxes(r.axes, Rank(A))
         IN [c |-> SwtForm(SwtN(A, r.banks, ax, SwtLevelOf(r, A.s, ax), r.start), Len(ax), r.trim)]
    [] r.op = "iswt" ->
         LET C == r.in.c
             n == Len(r.axes)
             aa == KeyStr(AllA(n))
             a == IF r.trim THEN C[1] ELSE C[1][aa]
         IN [y |-> IswtN(a, IF r.trim THEN Tail(C) ELSE C, r.banks, NormAxes(r.axes, Rank(a)), 0)]
    [] r.op = "swtmax" -> [n |-> SwtMaxLevel(r.n)]
    [] r.op = "mraswt" ->
         LET A == r.in.x  ax == NormAxes(r.axes, Rank(A))
             p == MraSwt(A, r.banks, ax, SwtLevelOf(r, A.s, ax))
         IN [parts |-> p, total |-> MraSum(p)]
    [] r.op = "mradwt" ->
         LET A == r.in.x  ax == NormAxes(r.axes, Rank(A))
             lv == IF r.level >= 0 THEN r.level ELSE MaxLevelN(A.s, r.banks, ax)
             p == MraDwt(A, r.banks, r.modes, ax, lv)
         IN [parts |-> p, total |-> MraSum(p)]
=============================================================================
