------------------------------ MODULE CallTrace ------------------------------
(* Trace validation of recorded library calls.  Every line of the trace is one  *)
(* call: its operation, integer arguments and the (exact) integer result that    *)
(* the implementation delivered.  A step consumes one record; Verdict names the   *)
(* clauses of the specification that the record breaks (none = a legal step).     *)
(* W independent lanes let TLC's workers check records in parallel.               *)
EXTENDS Calls, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
W == 16
VARIABLES lane, pos
vars == << lane, pos >>

Report(i) ==
  LET r == Trace[i]
      bad == Verdict(r)
  IN IF bad = {} THEN TRUE ELSE PrintT(<< "BAD", r.id, bad >>)

Init == lane \in 1..W /\ pos = lane - W
Next == /\ pos + W <= Len(Trace)
        /\ pos' = pos + W
        /\ Report(pos')
        /\ UNCHANGED lane
Spec == Init /\ [][Next]_vars
TypeOK == lane \in 1..W /\ pos <= Len(Trace)
=============================================================================
