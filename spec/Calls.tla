-------------------------------- MODULE Calls --------------------------------
(* The sequential specification of the API as a table: what every operation     *)
(* delivers for given arguments.  A record r has fields                          *)
(*   id, op     identification                                                   *)
(*   in         named arrays (or coefficient structures) passed to the call      *)
(*   banks, modes, axes, level, ...   parameters                                 *)
(*   out        what the call delivered, or [err |-> kind]                       *)
(*   pure       whether every argument was left unchanged                        *)
(*   idt, odt   dtype names of the inputs and outputs                            *)
EXTENDS Mra, Padding, Cascade

Absent == [s |-> << >>, d |-> << >>]       \* "None"
IsAbsent(A) == A.s = << >> /\ A.d = << >>

Ax1(r, A) == NormAxes(r.axes, Rank(A))

\* 2-D results: detail along the first listed axis is the "horizontal" band
Name2 == [cA |-> "aa", cH |-> "da", cV |-> "ad", cD |-> "dd"]
To2(C) == [k \in {z \in DOMAIN Name2 : Name2[z] \in DOMAIN C} |-> C[Name2[k]]]
From2(C) == [k \in {Name2[z] : z \in DOMAIN C} |-> C[CHOOSE z \in DOMAIN C : Name2[z] = k]]
Names2D(cs) == Tab(Len(cs), LAMBDA j : IF j = 1 THEN cs[1] ELSE To2(cs[j]))
Keys2D(cs) == Tab(Len(cs), LAMBDA j : IF j = 1 THEN cs[1] ELSE From2(cs[j]))

LevelOf(r, shape, axes) ==
  IF r.level >= 0 THEN r.level ELSE MaxLevelN(shape, r.banks, axes)

IdwtND(r, C) ==
  LET some == C[CHOOSE k \in DOMAIN C : TRUE]
  IN Idwtn(C, r.banks, r.modes, Ax1(r, some))

Present(in, ks) == [k \in {z \in ks : z \in DOMAIN in} |-> in[k]]

RecRank(cs) == IF ~IsAbsent(cs[1]) THEN Rank(cs[1])
               ELSE LET j == CHOOSE i \in 2..Len(cs) : DOMAIN cs[i] # {}
                    IN Rank(cs[j][CHOOSE k \in DOMAIN cs[j] : TRUE])

Value(r) ==
  CASE r.op = "dwt" ->
         LET C == Dwtn(r.in.x, r.banks, r.modes, Ax1(r, r.in.x))
         IN [a |-> C["a"], d |-> C["d"]]
    [] r.op = "downcoef" -> [y |-> Vec(DownCoef(r.part, r.in.x.d, r.banks[1], r.modes[1], r.level))]
    [] r.op = "len" -> [n |-> DwtLen(r.n, r.F, r.mode)]
    [] r.op = "maxlevel" -> [n |-> MaxLevel(r.n, r.F)]
    [] r.op = "maxleveln" -> [n |-> MinOver(Tab(Len(r.axes), LAMBDA t :
                                 MaxLevel(r.shape[NormAxis(r.axes[t], Len(r.shape)) + 1], r.lens[t])))]
    [] r.op = "idwt" -> [y |-> IdwtND(r, r.in)]
    [] r.op = "upcoef" -> [y |-> Vec(UpCoef(r.part, r.in.c.d, r.banks[1], r.level, r.take))]
    [] r.op = "dwtn" -> [c |-> Dwtn(r.in.x, r.banks, r.modes, Ax1(r, r.in.x))]
    [] r.op = "dwt2" -> [c |-> To2(Dwtn(r.in.x, r.banks, r.modes, Ax1(r, r.in.x)))]
    [] r.op = "idwtn" -> [y |-> IdwtND(r, r.in)]
    [] r.op = "idwt2" -> [y |-> IdwtND(r, From2(r.in))]
    [] r.op \in {"wavedec", "wavedecn"} ->
         LET ax == Ax1(r, r.in.x)
         IN [c |-> WaveDecN(r.in.x, r.banks, r.modes, ax, LevelOf(r, r.in.x.s, ax))]
    [] r.op = "wavedec2" ->
         LET ax == Ax1(r, r.in.x)
         IN [c |-> Names2D(WaveDecN(r.in.x, r.banks, r.modes, ax, LevelOf(r, r.in.x.s, ax)))]
    [] r.op \in {"waverec", "waverecn"} ->
         [y |-> WaveRecN(r.in.c, r.banks, r.modes, NormAxes(r.axes, RecRank(r.in.c)))]
    [] r.op = "waverec2" ->
         [y |-> WaveRecN(Keys2D(r.in.c), r.banks, r.modes, NormAxes(r.axes, RecRank(r.in.c)))]
    [] r.op = "wavefun" ->
         LET w == WaveFun(r.banks[1], r.level, r.orth, r.biorth, 0)
         IN [f |-> Map(Vec, w), x |-> Vec(Grid(FLen(r.banks[1]), r.level, r.orth))]
    [] r.op = "integral" ->
         [f |-> Map(Vec, Integrals(r.banks[1], r.level, r.orth, r.biorth, 0)), x |-> Vec(Grid(FLen(r.banks[1]), r.level, r.orth))]
    [] r.op = "running" -> [f |-> << Vec(ScaleSeq(r.in.x.d[2] - r.in.x.d[1], Running(r.in.f.d))) >>, x |-> r.in.x]
    [] r.op = "pad" -> [y |-> PadArr(r.in.x, r.modes[1], r.widths)]
    [] r.op \in {"pack", "ravel", "shapes", "fswavedecn", "fswaverecn", "fsobj"} -> PackValue(r)
    [] r.op \in {"swt", "iswt", "swtmax", "mraswt", "mradwt"} -> MraValue(r)

(* result types *)
OutType(ts) ==
  LET C1(t) == CASE t \in {"float32", "float64", "complex64", "complex128"} -> t
                 [] t = "float16" -> "float32"
                 [] t = "complex256" -> "complex128"
                 [] OTHER -> "float64"
      S == {C1(t) : t \in ts}
  IN IF Cardinality(S) = 1 THEN CHOOSE t \in S : TRUE
     ELSE IF S \cap {"complex64", "complex128"} # {} THEN "complex128" ELSE "float64"

\* operations whose results have the type rule above
TypeBad(r) ==
  IF ~Has(r, "odt") THEN {}
  ELSE IF \A i \in DOMAIN r.odt : r.odt[i] = OutType(RangeOf(r.idt)) THEN {} ELSE {"type"}

(* operations judged by a relation instead of a unique value *)
Relational == {"pr", "sum"}
OddUp(n) == n + (n % 2)
Grown(shape, axes) == Tab(Len(shape), LAMBDA a : IF (a - 1) \in RangeOf(axes) THEN OddUp(shape[a]) ELSE shape[a])
\* levels = 0 leaves the array alone, per axis where levels are given per axis
PrShape(r, ax) ==
  LET lv(t) == IF Has(r, "levels") THEN r.levels[t] ELSE IF Has(r, "level") THEN r.level ELSE 1
  IN Tab(Len(r.in.x.s), LAMBDA a : LET t == AxisIndex(ax, a - 1) IN
       IF t # 0 /\ lv(t) # 0 THEN OddUp(r.in.x.s[a]) ELSE r.in.x.s[a])
Relation(r) ==
  CASE r.op = "pr" ->        \* forward then inverse: the original times the bank's gain, one surplus sample per odd axis
         LET ax == Ax1(r, r.in.x) IN
         (IF r.out.y.s = PrShape(r, ax) THEN {} ELSE {"length"})
         \cup (IF r.out.y.s = PrShape(r, ax) /\ TrimTo(r.out.y, r.in.x.s) = ScaleArr(r.gain, r.in.x) THEN {} ELSE {"value"})
         \cup (IF Has(r.out, "parts") /\ SumArrs(r.out.parts) # r.out.y THEN {"superposition"} ELSE {})
    [] r.op = "sum" ->       \* additivity: the parts add up to the whole
         IF (\A i \in DOMAIN r.out.parts : r.out.parts[i].s = r.out.y.s) /\ SumArrs(r.out.parts) = r.out.y THEN {} ELSE {"value"}

Verdict(r) ==
  (IF Has(r.out, "err") THEN {"raised"}
   ELSE IF Has(r.out, "bad") THEN {"value"}
   ELSE IF r.op \in Relational THEN Relation(r)
   ELSE IF r.out = Value(r) THEN {} ELSE {"value"})
  \cup (IF Get(r, "pure", TRUE) THEN {} ELSE {"mutated"})
  \cup TypeBad(r)
=============================================================================
