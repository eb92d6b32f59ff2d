------------------------------ MODULE HistoryTrace ------------------------------
(* Validation of recorded histories of calls: after every event, each result the caller still   *)
(* holds and has not overwritten must have the value the call has when it is the first thing a     *)
(* process does (its class in r.fresh), and nothing else of the process may have changed.           *)
EXTENDS History, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
W == 16
VARIABLES lane, pos
Fresh(r) == TLCEval([x \in { << q[1], q[2], q[3], q[4], q[5] >> : q \in RangeOf(r.fresh) } |->
              (CHOOSE q \in RangeOf(r.fresh) : << q[1], q[2], q[3], q[4], q[5] >> = x)[6]])
Bad(fresh, st, ev) ==
  (IF \A p \in RangeOf(ev.got) : (p[1] \in DOMAIN st.held /\ st.held[p[1]].ok) => fresh[st.held[p[1]].key] = p[2] THEN {} ELSE {"value"})
  \cup (IF ev.env = 0 THEN {} ELSE {"process"})
  \cup (IF Has(ev, "raised") THEN {"raised"} ELSE {})
\* a result that is held must be looked at after every event of this thread of control
Unseen(st, ev, all) == IF ~all THEN {} ELSE
  IF { k \in DOMAIN st.held : st.held[k].ok } \subseteq { p[1] : p \in RangeOf(ev.got) } THEN {} ELSE {"unseen"}
RECURSIVE Judge(_, _, _, _)
Judge(r, fresh, st, i) ==
  IF i > Len(r.steps) THEN {}
  ELSE LET ev == r.steps[i]
           n == TLCEval(After(st, ev))
           bad == Bad(fresh, n, ev) \cup Unseen(n, ev, r.all)
       IN IF bad # {} THEN { ToString(i) \o ":" \o b : b \in bad } ELSE Judge(r, fresh, n, i + 1)
Verdict(r) == Judge(r, Fresh(r), Start({1, 2}, {1, 2}), 1)
Report(i) == LET bad == Verdict(Trace[i]) IN IF bad = {} THEN TRUE ELSE PrintT(<< "BAD", Trace[i].id, bad >>)
Init == lane \in 1..W /\ pos = lane - W
Next == /\ pos + W <= Len(Trace)
        /\ pos' = pos + W
        /\ Report(pos')
        /\ UNCHANGED lane
Spec == Init /\ [][Next]_<< lane, pos >>
=============================================================================
