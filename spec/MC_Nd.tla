-------------------------------- MODULE MC_Nd --------------------------------
(* The separable transform as a machine that filters one axis at a time, in any     *)
(* order, keeping the branch it chose per axis; at the end every order must have     *)
(* reached the subband the key names.  Then the inverse undoes axes in any order,     *)
(* and the superposition over all keys restores the array (dyadic banks).             *)
EXTENDS Multi, Json, IOUtils
CONSTANTS Shapes, ModeSet
Banks == JsonDeserialize(IOEnv.BANKS)
VARIABLES shape, imp, bk, md, done, cur
vars == << shape, imp, bk, md, done, cur >>
n == Len(shape)
Axes == [t \in 1..n |-> t - 1]
BanksT == [t \in 1..n |-> Banks[bk[t]]]
Scale == 1024
Input == [s |-> shape, d |-> [p \in 1..Size(shape) |-> IF p = imp THEN Scale * 64 ELSE 0]]
Init ==
  /\ shape \in Shapes /\ imp \in 1..Size(shape)
  /\ bk \in [1..n -> 1..Len(Banks)] /\ md \in [1..n -> ModeSet]
  /\ \A t \in 1..n : NeedsTwo(md[t]) => shape[t] >= 2
  /\ done = [t \in 1..n |-> "-"] /\ cur = Input
Step(t, l) ==
  /\ done[t] = "-"
  /\ cur' = AlongAxis(LAMBDA x : Down(l, x, BanksT[t], md[t]), cur, t - 1)
  /\ done' = [done EXCEPT ![t] = l]
  /\ UNCHANGED << shape, imp, bk, md >>
Next == \E t \in 1..n, l \in {"a", "d"} : Step(t, l)
Spec == Init /\ [][Next]_vars
OrderFree == (\A t \in 1..n : done[t] # "-") => cur = Subband(Input, done, BanksT, md, Axes)
ShapeRule == \A t \in 1..n : cur.s[t] = IF done[t] = "-" THEN shape[t] ELSE DwtLen(shape[t], FLen(BanksT[t]), md[t])
Restores == (\A t \in 1..n : done[t] = "-") =>
   LET y == Idwtn(Dwtn(Input, BanksT, md, Axes), BanksT, md, Axes)
   IN (\A t \in 1..n : y.s[t] = shape[t] + (shape[t] % 2)) /\ TrimTo(y, shape) = Input
=============================================================================
