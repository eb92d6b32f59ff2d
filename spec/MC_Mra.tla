-------------------------------- MODULE MC_Mra --------------------------------
(* Components of the decimated transform add up to the input: every length, mode,      *)
(* level (one more per step), for the dyadic perfect-reconstruction banks.              *)
EXTENDS Mra, Json, IOUtils
CONSTANTS MaxN, ModeSet, MaxLevel1
Banks == JsonDeserialize(IOEnv.BANKS)
VARIABLES b, N, imp, mode, lev
vars == << b, N, imp, mode, lev >>
bank == Banks[b]
A0 == Vec([n \in 1..N |-> IF n = imp THEN Pow2(MaxLevel1 * (bank.ds + bank.rs)) ELSE 0])
Init == b \in 1..Len(Banks) /\ N \in 1..MaxN /\ imp \in 1..N /\ mode \in ModeSet /\ lev = 0
RECURSIVE Ok(_, _)
Ok(n, l) == IF l = 0 THEN TRUE ELSE IF NeedsTwo(mode) /\ n < 2 THEN FALSE ELSE Ok(DwtLen(n, FLen(bank), mode), l - 1)
Next == lev < MaxLevel1 /\ Ok(N, lev + 1) /\ lev' = lev + 1 /\ UNCHANGED << b, N, imp, mode >>
Spec == Init /\ [][Next]_vars
Parts == MraDwt(A0, << bank >>, << mode >>, << 0 >>, lev)
Adds == MraSum(Parts) = A0
Shapes == \A i \in DOMAIN FlatParts(Parts) : FlatParts(Parts)[i].s = A0.s
=============================================================================
