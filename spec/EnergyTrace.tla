----------------------------- MODULE EnergyTrace -----------------------------
(* Recorded coefficients of two signals under integer orthogonal banks: the leaves of the    *)
(* record carry exactly the inner products of the signals.                                 *)
EXTENDS Energy, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
W == 16
VARIABLES lane, pos
C(name, cond) == IF cond THEN {} ELSE {name}
Clauses(r) ==
  LET g == (IF r.kind = "swt" THEN 2 ELSE 1) * Gain(r.rots)
      D == FoldLeft(LAMBDA m, f : Max2(m, f[1]), 0, r.leaves)
      sizes == Sum(Map(LAMBDA f : Len(f[2]), r.leaves))
      on(i, j) == Map(LAMBDA f : << f[1], f[i], f[j] >>, r.leaves)
      dot(i, j) == Parseval(on(i, j), g, r.naxes, D, r.xs[i - 1], r.xs[j - 1])
  IN C("bank", r.bank.dl = OrthBank(r.rots).dl /\ r.bank.dh = OrthBank(r.rots).dh)
     \cup C("count", r.kind = "dwt" => sizes = Len(r.xs[1]))
     \cup C("energy", dot(2, 2) /\ dot(3, 3)) \cup C("product", dot(2, 3))
Report(i) == LET bad == Clauses(Trace[i]) IN IF bad = {} THEN TRUE ELSE PrintT(<< "BAD", Trace[i].id, bad >>)
Init == lane \in 1..W /\ pos = lane - W
Next == /\ pos + W <= Len(Trace)
        /\ pos' = pos + W
        /\ Report(pos')
        /\ UNCHANGED lane
Spec == Init /\ [][Next]_<< lane, pos >>
=============================================================================
