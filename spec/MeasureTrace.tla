----------------------------- MODULE MeasureTrace -----------------------------
(* Validation of measured behaviours of real-valued calls: the harness records      *)
(* lengths, dtypes and errors in hundredths of the rounding unit it derives from     *)
(* the operand magnitudes; the clauses that such a record must satisfy are here.      *)
EXTENDS Calls, Cwt, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
W == 16
Limit == 400                       \* four units of rounding

VARIABLES lane, pos
vars == << lane, pos >>

C(name, cond) == IF cond THEN {} ELSE {name}

Small(r) == C("error", r.err <= Limit)
Types(r) == IF Has(r, "odt") THEN C("type", r.odt = OutType({r.idt})) ELSE {}


Clauses(r) ==
  CASE r.op = "roundtrip" ->         \* one level: length rounded up to even
         C("length", r.M = OddUp(r.N)) \cup C("otheraxes", r.others) \cup Small(r)
         \cup C("superposition", r.err2 <= Limit) \cup Types(r)
    [] r.op = "rec" ->               \* multilevel: every transformed axis at most one longer, others equal
         (IF r.levels = 0 THEN C("length", r.M = r.N)
          ELSE C("length", Len(r.M) = Len(r.N) /\ \A a \in DOMAIN r.N :
                   r.M[a] = IF (a - 1) \in RangeOf(r.axes) THEN OddUp(r.N[a]) ELSE r.N[a]))
         \cup Small(r) \cup Types(r)
    [] r.op = "same" ->              \* an equality of arrays up to rounding
         C("shape", r.M = r.N) \cup Small(r) \cup Types(r)
    [] r.op = "maxlevel" ->          \* packet tree whose root has no data: level of a node with data plus its own maximum
         C("unknown", r.none) \cup C("value", r.n = r.level + MinOver(Tab(Len(r.shape), LAMBDA i : MaxLevel(r.shape[i], r.F))))
    [] r.op = "cwt" ->               \* scales first, then the shape of the data
         C("shape", r.M = << r.scales >> \o r.N) \cup Small(r)
         \cup C("type", r.odt = CwtType(r.idt, r.cplx)) \cup C("frequencies", r.nf = r.scales /\ r.ferr <= Limit)
    [] r.op = "wave" ->              \* samples of a closed form on the documented grid
         C("length", r.M = r.N) \cup Small(r) \cup C("grid", r.xerr <= Limit) \cup C("type", r.odt = r.want)
    [] r.op = "freq" ->              \* a whole number of periods in the domain, none stronger among the others
         C("periods", r.k >= 1 /\ r.k <= CeilDiv(r.N, 2) /\ r.kerr <= Limit) \cup C("dominant", r.deficit <= Limit)
    [] r.op = "signal" -> C("length", r.M = r.N) \cup Small(r) \cup C("type", r.odt = r.want)
    [] r.op = "answer" -> C("answer", r.got = r.want)
    [] r.op = "dataset" -> C("shape", r.M = r.N /\ r.count) \cup Small(r) \cup C("type", r.odt = r.want) \cup C("fresh", r.own)
    [] r.op = "exact" -> C("value", r.eq)

Report(i) ==
  LET r == Trace[i]
      bad == Clauses(r)
  IN IF bad = {} THEN TRUE ELSE PrintT(<< "BAD", r.id, bad >>)
Init == lane \in 1..W /\ pos = lane - W
Next == /\ pos + W <= Len(Trace)
        /\ pos' = pos + W
        /\ Report(pos')
        /\ UNCHANGED lane
Spec == Init /\ [][Next]_vars
=============================================================================
