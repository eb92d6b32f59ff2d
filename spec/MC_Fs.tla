-------------------------------- MODULE MC_Fs --------------------------------
(* The fully separable transform as a machine that transforms one listed axis at a   *)
(* time, in any order: the array and its block lengths do not depend on the order,    *)
(* the blocks partition it, and the inverse restores the array up to one sample per    *)
(* transformed odd axis.                                                               *)
EXTENDS Pack, Json, IOUtils
CONSTANTS MaxN, ModeSet, MaxLevel1
Banks == JsonDeserialize(IOEnv.BANKS)
VARIABLES shape, imp, bk, md, lv, done, cur
vars == << shape, imp, bk, md, lv, done, cur >>
n == 2
Axes == << 0, 1 >>
BanksT == [t \in 1..n |-> Banks[bk[t]]]
Input == [s |-> shape, d |-> [p \in 1..Size(shape) |-> IF p = imp THEN 65536 ELSE 0]]
Init ==
  /\ shape \in [1..n -> 1..MaxN] /\ imp \in {1, Size(shape)}
  /\ bk \in [1..n -> 1..Len(Banks)] /\ md \in [1..n -> ModeSet] /\ lv \in [1..n -> 0..MaxLevel1]
  /\ done = {} /\ cur = Input
Step(t) == /\ t \notin done /\ done' = done \cup {t}
           /\ cur' = Concat(FsAxis(cur, BanksT[t], md[t], t - 1, lv[t]), t - 1)
           /\ UNCHANGED << shape, imp, bk, md, lv >>
Next == \E t \in 1..n : Step(t)
Spec == Init /\ [][Next]_vars
Whole == FsDec(Input, BanksT, md, Axes, lv, 1)
OrderFree == done = 1..n => cur = Whole[1]
Partition == done = 1..n => \A t \in 1..n : Sum(Whole[2][t]) = cur.s[t]
Restores == done = 1..n =>
  LET y == FsRec(cur, Whole[2], BanksT, md, Axes, 1)
  IN /\ \A t \in 1..n : y.s[t] = IF lv[t] = 0 THEN shape[t] ELSE shape[t] + (shape[t] % 2)
     /\ TrimTo(y, shape) = Input
PutGet == done = 1..n =>
  \A i \in DOMAIN Lex(Map(LAMBDA L : Len(L), Whole[2])) :
    LET k == Lex(Map(LAMBDA L : Len(L), Whole[2]))[i]
        b == FsGet(cur, Axes, Whole[2], k)
        X == ScaleArr(3, b)
        A2 == FsPut(cur, Axes, Whole[2], k, X)
    IN FsGet(A2, Axes, Whole[2], k) = X /\ FsPut(A2, Axes, Whole[2], k, b) = cur
=============================================================================
