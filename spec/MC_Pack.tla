------------------------------- MODULE MC_Pack -------------------------------
(* Layout of packed coefficients, level after level: blocks are disjoint, inside     *)
(* the array, and packing followed by reading through the slices is the identity;     *)
(* the vector form covers every element once in order.                                *)
EXTENDS Pack
CONSTANTS MaxN, Fs, ModeSet, MaxLevels, Ranks
VARIABLES shape, axes, F, modes, level
vars == << shape, axes, F, modes, level >>
RankShapes(r) == [1..r -> 1..MaxN]
\* a transform along a subset of the axes, in either order
AxesOf(r) == IF r = 1 THEN { << 0 >> } ELSE IF r = 2 THEN { << 0, 1 >>, << 1, 0 >>, << 0 >>, << 1 >> } ELSE { << 0, 2 >>, << 2, 1, 0 >> }
Init == \E r \in Ranks :
  /\ shape \in RankShapes(r) /\ axes \in AxesOf(r)
  /\ F \in [1..Len(axes) -> Fs] /\ modes \in [1..Len(axes) -> ModeSet] /\ level = 0
Next == level < MaxLevels /\ level' = level + 1 /\ UNCHANGED << shape, axes, F, modes >>
Spec == Init /\ [][Next]_vars
Shp == DecShapes(shape, F, modes, axes, level)
\* distinct contents: element p of block j is 1000 j + p (subbands of one level by their order)
Fill(s, base) == [s |-> s, d |-> Tab(Size(s), LAMBDA p : base + p)]
Cs == Tab(Len(Shp), LAMBDA j : IF j = 1 THEN Fill(Shp[1], 0)
        ELSE LET ks == SetToSeq(DOMAIN Shp[j]) IN
             [k \in DOMAIN Shp[j] |-> Fill(Shp[j][k], 10000 * j + 1000 * (CHOOSE i \in DOMAIN ks : ks[i] = k))])
Overlap(p, q) == \A a \in DOMAIN p : p[a][1] < q[a][2] /\ q[a][1] < p[a][2]
Disjoint == LET bs == Blocks(Cs, axes) IN \A i \in DOMAIN bs : \A j \in DOMAIN bs : i < j => ~Overlap(bs[i][1], bs[j][1])
Within == LET bs == Blocks(Cs, axes)  shp == PackShape(Cs, axes) IN \A i \in DOMAIN bs : \A a \in DOMAIN shp : bs[i][1][a][2] <= shp[a]
Lossless == UnpackArr(PackArr(Cs, axes, -1), PackSlices(Cs, axes)) = Cs
TightIff == Len(Cs) > 1 => (Tight(Cs, axes) <=> ~(\E p \in DOMAIN PackArr(Cs, axes, -1).d : PackArr(Cs, axes, -1).d[p] = -1))
VectorLossless == UnravelVec(RavelVec(Cs), RavelSlices(Cs), ListShapes(Cs)) = Cs
SizeOK == Len(RavelVec(Cs)) = DecSize(Shp)
============================================================================
