------------------------------ MODULE PacketTrace ------------------------------
(* Validation of recorded histories of packet trees: every record is one history;    *)
(* after every step the value observed by the caller and the whole tree must be those *)
(* of the state machine in Packet.                                                    *)
EXTENDS Packet, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
W == 16
VARIABLES lane, pos

Start(r) ==
  LET maxl == IF r.maxl >= 0 THEN r.maxl ELSE MaxLevelN(r.root.s, Tab(Len(r.axes), LAMBDA i : r.bank), r.axes)
  IN InitTree(r.kind, r.bank, r.mode, r.axes, maxl, r.root)

StepBad(T, A, st) ==
  IF ~A.ok THEN (IF Has(st.res, "err") THEN {} ELSE {"accepted"})
  ELSE IF Has(st.res, "err") THEN {"raised"}
  ELSE IF Has(st.res, "bad") THEN {"value"}
  ELSE (IF st.res.out = A.out THEN {} ELSE {"value"})
       \cup (IF {<< x[1], x[2] >> : x \in RangeOf(st.res.dump)} = Dump(A.t) THEN {} ELSE {"state"})
       \cup (IF Len(st.res.dump) = Cardinality(DOMAIN A.t.N) THEN {} ELSE {"state"})

RECURSIVE Judge(_, _, _)
Judge(T, steps, i) ==
  IF i > Len(steps) THEN {}
  ELSE LET A == TLCEval(Apply(T, steps[i]))
           b == StepBad(T, A, steps[i])
       IN IF b # {} THEN {<< i, c >> : c \in b}
          ELSE IF ~A.ok THEN {} ELSE Judge(A.t, steps, i + 1)

Verdict(r) ==
  LET T == Start(r)
  IN IF Has(r.made, "err") THEN {<< 0, "raised" >>}
     ELSE (IF r.made.maxl = T.maxl THEN {} ELSE {<< 0, "maxlevel" >>})
          \cup Judge(T, r.steps, 1)

Report(i) ==
  LET r == Trace[i]
      bad == Verdict(r)
  IN IF bad = {} THEN TRUE ELSE PrintT(<< "BAD", r.id, {ToString(b[1]) \o ":" \o b[2] : b \in bad} >>)

Init == lane \in 1..W /\ pos = lane - W
Next == /\ pos + W <= Len(Trace)
        /\ pos' = pos + W
        /\ Report(pos')
        /\ UNCHANGED lane
Spec == Init /\ [][Next]_<< lane, pos >>
=============================================================================
