----------------------------- MODULE CustomTrace -----------------------------
(* Validation of recorded histories of lists, banks and wavelets.                     *)
EXTENDS Custom, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
W == 16
VARIABLES lane, pos

StepBad(A, st) ==
  IF ~A.ok THEN (IF Has(st.res, "err") THEN {} ELSE {"accepted"})
  ELSE IF Has(st.res, "err") THEN {"raised"}
  ELSE IF Has(st.res, "bad") THEN {"value"}
  ELSE (IF st.op \in {"lens", "dwt", "idwt"} => st.res.out = A.out THEN {} ELSE {"value"})
       \cup (IF st.res.dump = Dump(A.h) THEN {} ELSE {"state"})

RECURSIVE Judge(_, _, _)
Judge(H, steps, i) ==
  IF i > Len(steps) THEN {}
  ELSE LET A == TLCEval(Apply(H, steps[i]))
           b == StepBad(A, steps[i])
       IN IF b # {} THEN {<< i, c >> : c \in b} ELSE Judge(A.h, steps, i + 1)

Report(i) ==
  LET r == Trace[i]
      bad == Judge(<< >>, r.steps, 1)
  IN IF bad = {} THEN TRUE ELSE PrintT(<< "BAD", r.id, {ToString(b[1]) \o ":" \o b[2] : b \in bad} >>)
Init == lane \in 1..W /\ pos = lane - W
Next == /\ pos + W <= Len(Trace)
        /\ pos' = pos + W
        /\ Report(pos')
        /\ UNCHANGED lane
Spec == Init /\ [][Next]_<< lane, pos >>
=============================================================================
