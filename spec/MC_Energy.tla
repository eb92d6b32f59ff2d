------------------------------ MODULE MC_Energy ------------------------------
(* A set of leaves grows by splitting one leaf at a time, in any order: the multilevel      *)
(* transform is one of these histories, wavelet packet bases are the others.  Checked: inner    *)
(* products of any two impulses (hence of any two signals) stay what they were; so do those of    *)
(* the stationary transform with only the last approximation kept.                             *)
EXTENDS Energy, Json, IOUtils
CONSTANTS Shapes1, Depth, MaxRots
Quick == { << 2 >>, << 4 >>, << 6 >>, << 8 >>, << 2, 2 >>, << 4, 2 >> }
Deep == Quick \cup { << 12 >>, << 16 >>, << 4, 4 >>, << 2, 2, 2 >> }
Turns == { << 1, 1 >>, << 2, -1 >>, << 1, 3 >> }
Rots == UNION { [1..k -> Turns] : k \in 1..MaxRots }
VARIABLES rs, shape, kind, leaves, p, q
vars == << rs, shape, kind, leaves, p, q >>
Axes == Tab(Len(shape), LAMBDA i : i - 1)
Bank == OrthBank(rs)
Rep1(v) == Tab(Len(shape), LAMBDA i : v)
Imp(k) == [s |-> shape, d |-> Tab(Prod(shape), LAMBDA i : IF i = k THEN 1 ELSE 0)]
Init == /\ rs \in Rots /\ kind \in { "dwt", "swt" }
        /\ shape \in Shapes1
        /\ Len(shape) > 1 => Len(rs) = 1
        /\ p \in 1..Prod(shape) /\ q \in 1..Prod(shape) /\ q <= p
        /\ leaves = << << 0, Imp(p), Imp(q), TRUE >> >>
Even(A) == \A i \in DOMAIN A.s : A.s[i] % 2 = 0
Split(k) ==
  LET f == leaves[k]
      ks == SetToSeq(Keys(Len(shape)))
      two(A) == IF kind = "dwt" THEN Dwtn(A, Rep1(Bank), Rep1("periodization"), Axes) ELSE SwtLevelN(A, Rep1(Bank), Axes, Pow2(f[1]))
      X == two(f[2])  Y == two(f[3])
      new == Map(LAMBDA s : << f[1] + 1, X[s], Y[s], s = KeyStr(AllA(Len(shape))) >>, ks)
  IN leaves' = SubSeq(leaves, 1, k - 1) \o new \o SubSeq(leaves, k + 1, Len(leaves))
Next == \E k \in DOMAIN leaves :
  /\ leaves[k][1] < Depth
  /\ IF kind = "dwt" THEN Even(leaves[k][2]) ELSE leaves[k][4] /\ \A i \in DOMAIN shape : shape[i] % Pow2(leaves[k][1] + 1) = 0
  /\ Split(k) /\ UNCHANGED << rs, shape, kind, p, q >>
Spec == Init /\ [][Next]_vars
G == IF kind = "dwt" THEN Gain(rs) ELSE 2 * Gain(rs)
Deepest == FoldLeft(LAMBDA m, f : Max2(m, f[1]), 0, leaves)
Kept == Parseval(Map(LAMBDA f : << f[1], f[2].d, f[3].d >>, leaves), G, Len(shape), Deepest, Imp(p).d, Imp(q).d)
=============================================================================
