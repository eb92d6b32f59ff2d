------------------------------- MODULE MemTrace -------------------------------
(* CallTrace with memory: every array argument is recorded as the block it lives in,     *)
(* the plan it was cut with, and the block after the call.  The values handed to the      *)
(* sequential specification are those the specification reads out of that memory.          *)
EXTENDS Calls, Layout, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
W == 16
VARIABLES lane, pos
vars == << lane, pos >>

Report(i) ==
  LET r == Trace[i]
      bad == Verdict(r) \cup UNION { ViewBad(Get(r, "views", << >>)[k]) : k \in DOMAIN Get(r, "views", << >>) }
  IN IF bad = {} THEN TRUE ELSE PrintT(<< "BAD", r.id, bad >>)

Init == lane \in 1..W /\ pos = lane - W
Next == /\ pos + W <= Len(Trace)
        /\ pos' = pos + W
        /\ Report(pos')
        /\ UNCHANGED lane
Spec == Init /\ [][Next]_vars
=============================================================================
