-------------------------------- MODULE MC_Swt --------------------------------
(* The stationary transform level by level, beside a copy of the signal shifted by    *)
(* one: every level's coefficients stay shifted copies of each other; the inverse       *)
(* restores the signal after every level; multiresolution components add up to it;      *)
(* with an orthogonal bank energy grows by exactly 2K per level (normalised: kept).      *)
EXTENDS Mra, Json, IOUtils
CONSTANTS Ns, MaxLevel1
Banks == JsonDeserialize(IOEnv.BANKS)
VARIABLES b, N, imp, lev, cs, sh
vars == << b, N, imp, lev, cs, sh >>
bank == Banks[b]
Scale == Pow2(MaxLevel1 * (bank.ds + bank.rs))
X == [n \in 1..N |-> IF n = imp THEN Scale ELSE 0]
Roll(x) == Tab(Len(x), LAMBDA n : x[((n - 2) % Len(x)) + 1])
A0 == Vec(X)
Init == /\ b \in 1..Len(Banks) /\ N \in Ns /\ imp \in 1..N /\ lev = 0
        /\ cs = << >> /\ sh = << >>
Cur(c, x) == IF c = << >> THEN x ELSE c[1]["a"].d
Level(x) == SwtLevelN(Vec(x), << bank >>, << 0 >>, Pow2(lev))
Next == /\ lev < Min2(MaxLevel1, SwtMaxLevel(N))
        /\ lev' = lev + 1
        /\ cs' = << Level(Cur(cs, X)) >> \o cs
        /\ sh' = << Level(Cur(sh, Roll(X))) >> \o sh
        /\ UNCHANGED << b, N, imp >>
Spec == Init /\ [][Next]_vars
Covariant == \A j \in DOMAIN cs : \A k \in {"a", "d"} : sh[j][k].d = Roll(cs[j][k].d)
SameLength == \A j \in DOMAIN cs : \A k \in {"a", "d"} : Len(cs[j][k].d) = N
ByLevels == cs = SwtN(A0, << bank >>, << 0 >>, lev, 0)
Inverts == lev > 0 /\ bank.gain = 1 =>
  IswtN(cs[1]["a"], cs, << bank >>, << 0 >>, 0) = ScaleArr(Pow2(lev), A0)
Adds == lev > 0 /\ bank.gain = 1 =>
  MraSum(MraSwt(A0, << bank >>, << 0 >>, lev)) = ScaleArr(Pow2(lev), A0)
Sq(x) == Sum(Tab(Len(x), LAMBDA i : x[i] * x[i]))
EnergyStep == bank.orth => \A j \in DOMAIN cs :
  LET prev == IF j = Len(cs) THEN X ELSE cs[j + 1]["a"].d
  IN Sq(cs[j]["a"].d) + Sq(cs[j]["d"].d) = 2 * bank.gain * Sq(prev)
=============================================================================
