------------------------------- MODULE TypeTrace ------------------------------
(* Recorded calls of MC_Types: the type of every array delivered, and in hundredths of    *)
(* the rounding of the wider of what was given, how far the call is from being linear, from  *)
(* acting on real and imaginary parts alike, and from the same call in double precision.      *)
EXTENDS Calls, Cwt, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
W == 16
Limit == 400
VARIABLES lane, pos
vars == << lane, pos >>
C(name, cond) == IF cond THEN {} ELSE {name}
Want(r) == LET S == RangeOf(r.slots) \ {"none"} IN IF r.fn = "cwt" THEN CwtType(OutType(S), r.cplxwave) ELSE OutType(S)
\* real and complex data of single precision in one call: nothing says whether they meet in single or in double precision
Wants(r) == {Want(r)} \cup (IF { OutType({t}) : t \in RangeOf(r.slots) \ {"none"} } = {"float32", "complex64"} THEN {"complex64"} ELSE {})
Clauses(r) ==
  IF Has(r, "raised") THEN {"raised"}
  ELSE C("type", r.out # << >> /\ \A k \in DOMAIN r.out : r.out[k] \in Wants(r))
       \cup C("shape", r.shapes)
       \cup C("linear", r.lin <= Limit) \cup C("complex", r.cplx <= Limit) \cup C("precision", r.prec <= Limit)
Report(i) ==
  LET r == Trace[i]
      bad == Clauses(r)
  IN IF bad = {} THEN TRUE ELSE PrintT(<< "BAD", r.id, bad >>)
Init == lane \in 1..W /\ pos = lane - W
Next == /\ pos + W <= Len(Trace)
        /\ pos' = pos + W
        /\ Report(pos')
        /\ UNCHANGED lane
Spec == Init /\ [][Next]_vars
=============================================================================
