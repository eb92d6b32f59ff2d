------------------------------ MODULE ForestTrace ------------------------------
(* Recorded histories of trees and their copies: after every step every living tree is as in  *)
(* Forest, and each keeps the axes, wavelet, mode and deepest level it was made with.            *)
EXTENDS Forest, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
W == 16
VARIABLES lane, pos
Start(r) ==
  LET maxl == IF r.maxl >= 0 THEN r.maxl ELSE MaxLevelN(r.root.s, Tab(Len(r.axes), LAMBDA i : r.bank), r.axes)
  IN InitTree(r.kind, r.bank, r.mode, r.axes, maxl, r.root)
TreeBad(r, T, g) ==
  IF Dead(T) THEN {}
  ELSE (IF {<< x[1], x[2] >> : x \in RangeOf(g.dump)} = Dump(T) /\ Len(g.dump) = Cardinality(DOMAIN T.N) THEN {} ELSE {"state"})
       \cup (IF g.info = r.info THEN {} ELSE {"info"})
StepBad(r, A, st) ==
  IF ~A.ok THEN (IF Has(st.res, "err") THEN {} ELSE {"accepted"})
  ELSE IF Has(st.res, "err") THEN {"raised"}
  ELSE IF Has(st.res, "bad") THEN {"value"}
  ELSE (IF st.res.out = A.out THEN {} ELSE {"value"})
       \cup (IF Len(st.res.trees) # Len(A.f) THEN {"count"} ELSE UNION { TreeBad(r, A.f[k], st.res.trees[k]) : k \in DOMAIN A.f })
RECURSIVE Judge(_, _, _, _)
Judge(r, F, steps, i) ==
  IF i > Len(steps) THEN {}
  ELSE LET A == TLCEval(ApplyF(F, steps[i]))
           b == StepBad(r, A, steps[i])
       IN IF b # {} THEN {<< i, c >> : c \in b}
          ELSE IF ~A.ok THEN {} ELSE Judge(r, A.f, steps, i + 1)
Verdict(r) ==
  IF Has(r.made, "err") THEN {<< 0, "raised" >>}
  ELSE (IF r.made.maxl = Start(r).maxl THEN {} ELSE {<< 0, "maxlevel" >>}) \cup Judge(r, << Start(r) >>, r.steps, 1)
Report(i) ==
  LET bad == Verdict(Trace[i])
  IN IF bad = {} THEN TRUE ELSE PrintT(<< "BAD", Trace[i].id, {ToString(b[1]) \o ":" \o b[2] : b \in bad} >>)
Init == lane \in 1..W /\ pos = lane - W
Next == /\ pos + W <= Len(Trace)
        /\ pos' = pos + W
        /\ Report(pos')
        /\ UNCHANGED lane
Spec == Init /\ [][Next]_<< lane, pos >>
=============================================================================
