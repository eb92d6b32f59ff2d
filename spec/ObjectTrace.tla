----------------------------- MODULE ObjectTrace -----------------------------
(* Recorded histories of wavelet objects and their copies: after every event each live object     *)
(* must report what the specification says, and behave as objects of equal identity have behaved    *)
(* (behaviours are numbered by the harness).                                                     *)
EXTENDS Objects, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
W == 16
VARIABLES lane, pos
C(name, cond) == IF cond THEN {} ELSE {name}
\* seen: set of << identity, behaviour >>
Looks(os, ev) ==
  C("count", Len(ev.got) = Len(os))
  \cup (IF Len(ev.got) # Len(os) THEN {} ELSE
        UNION { IF IsGone(os[k]) THEN {} ELSE
                C("fixed", ev.got[k].fixed = os[k].made)
                \cup C("attributes", ev.got[k].rep = ReportOf(os[k])) : k \in DOMAIN os })
Pairs(os, ev) == { << Identity(os[k]), ev.got[k].beh >> : k \in { j \in DOMAIN os : ~IsGone(os[j]) } }
Conflict(s) == \E x, y \in s : x[1] = y[1] /\ x[2] # y[2]
Raised(ev) == IF Has(ev, "raised") THEN (IF ev.e = "deny" /\ ev.raised \in RangeOf(ev.with) THEN {} ELSE {"raised"})
              ELSE IF ev.e = "deny" THEN {"accepted"} ELSE {}
RECURSIVE Judge(_, _, _, _)
Judge(steps, i, os, seen) ==
  IF i > Len(steps) THEN {}
  ELSE LET ev == steps[i]
           n == TLCEval(After(os, ev))
           bad == Raised(ev) \cup Looks(n, ev)
       IN IF bad # {} THEN { ToString(i) \o ":" \o b : b \in bad }
          ELSE LET all == TLCEval(seen \cup Pairs(n, ev)) IN
               IF Conflict(all) THEN { ToString(i) \o ":behaviour" } ELSE Judge(steps, i + 1, n, all)
Start(r) == Map(LAMBDA o : [made |-> o.fixed, at |-> Known(o.rep)], r.made)
Verdict(r) == Judge(r.steps, 1, Start(r), {})
Report(i) == LET bad == Verdict(Trace[i]) IN IF bad = {} THEN TRUE ELSE PrintT(<< "BAD", Trace[i].id, bad >>)
Init == lane \in 1..W /\ pos = lane - W
Next == /\ pos + W <= Len(Trace)
        /\ pos' = pos + W
        /\ Report(pos')
        /\ UNCHANGED lane
Spec == Init /\ [][Next]_<< lane, pos >>
=============================================================================
