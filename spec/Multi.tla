-------------------------------- MODULE Multi --------------------------------
(* Separable n-D transform and the multilevel transforms built on it.          *)
(* A coefficient list is <<approximation, D_L, ..., D_1>> where every D_j is a  *)
(* function from subband names ("ad", "da", ...) to arrays.                     *)
EXTENDS Dwt, Nd

KeySeqs(n) == [1..n -> {"a", "d"}]
KeyStr(k) == FoldLeft(LAMBDA x, y : x \o y, "", k)
AllA(n) == [i \in 1..n |-> "a"]
Keys(n) == {KeyStr(k) : k \in KeySeqs(n)}
KeyOf(n, str) == CHOOSE k \in KeySeqs(n) : KeyStr(k) = str

(* the subband named k: letter t taken along axes[t], with its bank and mode *)
RECURSIVE SubbandFrom(_, _, _, _, _, _)
SubbandFrom(A, k, banks, modes, axes, t) ==
  IF t > Len(axes) THEN A
  ELSE SubbandFrom(AlongAxis(LAMBDA x : Down(k[t], x, banks[t], modes[t]), A, axes[t]),
                   k, banks, modes, axes, t + 1)
Subband(A, k, banks, modes, axes) == SubbandFrom(A, k, banks, modes, axes, 1)

Dwtn(A, banks, modes, axes) ==
  TLCEval([ks \in Keys(Len(axes)) |-> Subband(A, KeyOf(Len(axes), ks), banks, modes, axes)])

RECURSIVE SynthFrom(_, _, _, _, _, _)
SynthFrom(A, k, banks, modes, axes, t) ==
  IF t = 0 THEN A
  ELSE SynthFrom(AlongAxis(LAMBDA c : UpBranch(c, IF k[t] = "a" THEN banks[t].rl ELSE banks[t].rh,
                                               banks[t].rs, modes[t]), A, axes[t]),
                 k, banks, modes, axes, t - 1)

SumArrs(As) == FoldLeft(LAMBDA x, y : AddArr(x, y), As[1], Tail(As))

(* superposition of the images of the subbands present *)
Idwtn(C, banks, modes, axes) ==
  LET n == Len(axes)
      ks == SetToSeq({k \in KeySeqs(n) : KeyStr(k) \in DOMAIN C})
  IN SumArrs(Tab(Len(ks), LAMBDA i :
               SynthFrom(C[KeyStr(ks[i])], ks[i], banks, modes, axes, n)))

-----------------------------------------------------------------------------
(* Levels.  The deepest level leaves at least one coefficient free of boundary *)
(* effects: the largest L with (F - 1) * 2^L <= N (0 if there is none).          *)
MaxLevel(N, F) ==
  IF F < 2 \/ N < F - 1 THEN 0 ELSE Log2Floor(N \div (F - 1))
MinOver(s) == FoldLeft(LAMBDA x, y : Min2(x, y), s[1], Tail(s))
MaxLevelN(shape, banks, axes) ==
  MinOver(Tab(Len(axes), LAMBDA t : MaxLevel(shape[axes[t] + 1], FLen(banks[t]))))

RECURSIVE WaveDecN(_, _, _, _, _)
WaveDecN(A, banks, modes, axes, level) ==
  IF level = 0 THEN << A >>
  ELSE LET C == Dwtn(A, banks, modes, axes)
           aa == KeyStr(AllA(Len(axes)))
           rest == WaveDecN(C[aa], banks, modes, axes, level - 1)
       IN Append(rest, TLCEval([k \in DOMAIN C \ {aa} |-> C[k]]))

(* the approximation may be one sample longer than the details it meets *)
MatchDims(a, D) ==
  IF DOMAIN D = {} THEN a
  ELSE TrimTo(a, D[CHOOSE k \in DOMAIN D : TRUE].s)

RECURSIVE WaveRecFrom(_, _, _, _, _, _)
WaveRecFrom(a, cs, banks, modes, axes, j) ==
  IF j > Len(cs) THEN a
  ELSE LET aa == KeyStr(AllA(Len(axes)))
           D == cs[j]
           C == IF a.s = <<>> /\ a.d = <<>> THEN D   \* no approximation given
                ELSE [k \in DOMAIN D \cup {aa} |-> IF k = aa THEN MatchDims(a, D) ELSE D[k]]
       IN IF DOMAIN C = {} THEN WaveRecFrom(a, cs, banks, modes, axes, j + 1)
          ELSE WaveRecFrom(Idwtn(C, banks, modes, axes), cs, banks, modes, axes, j + 1)
WaveRecN(cs, banks, modes, axes) == WaveRecFrom(cs[1], cs, banks, modes, axes, 2)

-----------------------------------------------------------------------------
(* predicted shapes *)
RECURSIVE DecShapes(_, _, _, _, _)
DecShapes(shape, lens, modes, axes, level) ==
  IF level = 0 THEN << shape >>
  ELSE LET At(a) == LET ts == {t \in 1..Len(axes) : axes[t] = a - 1}
                    IN IF ts = {} THEN shape[a]
                       ELSE LET t == CHOOSE u \in ts : TRUE IN DwtLen(shape[a], lens[t], modes[t])
           sub == Tab(Len(shape), At)
           ks == Keys(Len(axes)) \ {KeyStr(AllA(Len(axes)))}
       IN Append(DecShapes(sub, lens, modes, axes, level - 1), [k \in ks |-> sub])
DecSize(shapes) ==
  Size(shapes[1]) + Sum(Tab(Len(shapes) - 1, LAMBDA j :
     LET D == shapes[j + 1] IN Cardinality(DOMAIN D) * Size(D[CHOOSE k \in DOMAIN D : TRUE])))

-----------------------------------------------------------------------------
(* fully separable transform: 1-D multilevel transforms axis after axis        *)
Vec1(bank) == << bank >>
FsAxis(A, bank, mode, ax, level) ==           \* blocks [cA, cD_L, .., cD_1] along ax
  LET cs == WaveDecN(A, << bank >>, << mode >>, << ax >>, level)
  IN Tab(Len(cs), LAMBDA j : IF j = 1 THEN cs[1] ELSE cs[j]["d"])
RECURSIVE FsDec(_, _, _, _, _, _)
FsDec(A, banks, modes, axes, levels, t) ==    \* <<array, <<block lengths per axis>>>>
  IF t > Len(axes) THEN << A, << >> >>
  ELSE LET bl == FsAxis(A, banks[t], modes[t], axes[t], levels[t])
           rest == FsDec(Concat(bl, axes[t]), banks, modes, axes, levels, t + 1)
       IN << rest[1], << Map(LAMBDA B : B.s[axes[t] + 1], bl) >> \o rest[2] >>
RECURSIVE FsRec(_, _, _, _, _, _)
FsRec(A, lens, banks, modes, axes, t) ==
  IF t > Len(axes) THEN A
  ELSE LET ax == axes[t]
           L == lens[t]
           cum == Tab(Len(L), LAMBDA k : Sum(SubSeq(L, 1, k - 1)))
           Blk(k) == Block(A, Tab(Rank(A), LAMBDA a : IF a - 1 = ax THEN cum[k] ELSE 0),
                              Tab(Rank(A), LAMBDA a : IF a - 1 = ax THEN cum[k] + L[k] ELSE A.s[a]))
           cs == Tab(Len(L), LAMBDA k : IF k = 1 THEN Blk(1) ELSE ("d" :> Blk(k)))
       IN FsRec(WaveRecN(cs, << banks[t] >>, << modes[t] >>, << ax >>),
                lens, banks, modes, axes, t + 1)
=============================================================================
