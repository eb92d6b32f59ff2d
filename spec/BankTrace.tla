------------------------------ MODULE BankTrace ------------------------------
(* Judges what the library says about its built-in wavelets: names, listings,         *)
(* attributes and the filters themselves, read from a recorded trace.                 *)
EXTENDS Bank, Catalogue, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
Table == JsonDeserialize(IOEnv.TAPS)        \* name -> published taps * 2^28, rounded
W == 16
VARIABLES lane, pos
vars == << lane, pos >>
C(name, cond) == IF cond THEN {} ELSE {name}

Num(s) == CHOOSE n \in 0..100 : ToString(n) = s

\* r.op = "bank": one wavelet's filters and declarations
Filters(r) ==
  LET e == Entry(r.name)
      b == Digits(r.name)
      dl == r.f[1]
      dh == r.f[2]
      rl == r.f[3]
      rh == r.f[4]
      n == IF e.psi = None THEN 0 ELSE Num(e.psi)
      mb == IF b >= 47 THEN 48 ELSE IF b >= 38 /\ e.fam # "sym" THEN 33 ELSE IF b = 8 THEN 0 ELSE 30
      hi == IF e.fam = "rbio" THEN rh ELSE dh
  IN IF \E i \in 1..4 : Len(r.f[i]) # e.len THEN {"length"}
     ELSE C("companions", Modulated(rh, dl, 1) /\ Modulated(dh, rl, -1))
          \cup (IF e.len > 20 THEN {} ELSE C("reconstruction", PRBank(dl, dh, rl, rh, b)))
          \cup (IF ~e.orth THEN {} ELSE
                  C("reversed", SameSeq(rl, Rev(dl)) /\ SameSeq(rh, Rev(dh)))
                  \cup C("orthonormal", IF e.len > 20 THEN OrthonormalLow(dl, b) ELSE Orthonormal(dl, dh, b)))
          \cup C("sum", Below(DeltaErr(SumSquare(dl), 2), 12, IF b = 8 THEN 8 ELSE 48) /\ Below(DeltaErr(SumSquare(rl), 2), 12, IF b = 8 THEN 8 ELSE 48))
          \cup C("moments", VanishTaps(hi, n, mb))
          \cup (IF e.sym = "symmetric" THEN C("symmetry", Palindrome(dl) /\ Palindrome(rl) /\ (Palindrome(dh) \/ AntiPalin(dh)) /\ (Palindrome(rh) \/ AntiPalin(rh))) ELSE {})
          \cup C("published", \A i \in 1..4 : \A j \in 1..e.len : Abs(r.q[i][j] - Table[r.name][i][j]) <= 1)

Attrs(r) ==
  LET e == Entry(r.name) IN
     C("family", r.fam = e.fam /\ r.long = LongName(e.fam))
     \cup C("number", r.num = e.num)
     \cup C("flags", r.orth = e.orth /\ r.biorth = e.biorth)
     \cup C("symmetry", r.sym = e.sym)
     \cup C("name", r.given = r.name)
     \cup (IF r.op = "bank" THEN C("declared length", r.dlen = e.len /\ r.rlen = e.len /\ r.len = e.len) \cup C("declared moments", r.psi = e.psi /\ r.phi = e.phi)
           ELSE C("bounds", r.lo = e.lo /\ r.hi = e.hi) \cup C("complex", r.cplx = e.cplx)
                \cup C("parameters", r.fc = e.fc /\ r.fb = e.fb /\ r.ord = e.ord))

\* the filters derived from a scaling filter: companions exactly, scale so that the low-pass taps add up to sqrt 2
OFB(r) ==
  LET dl == r.f[1]
      dh == r.f[2]
      rl == r.f[3]
      rh == r.f[4]
      big == CHOOSE i \in DOMAIN r.ints : \A j \in DOMAIN r.ints : Abs(r.ints[j]) <= Abs(r.ints[i])
      Lim(t, k) == Append(Times(Append(ScaleSeq(t.s * Sign(k), t.l), 0), Abs(k)), 0)
  IN C("companions", SameSeq(dl, Rev(rl)) /\ SameSeq(dh, Rev(rh)) /\ Modulated(rh, dl, 1))
     \cup (IF r.ints = << >> THEN C("scale", Below(DeltaErr(SumSquare(rl), 2), 12, IF Len(rl) = 62 THEN 40 ELSE 44))
           ELSE C("proportional", Len(rl) = Len(r.ints) /\ \A i \in DOMAIN rl : Below(AddSeq(Lim(rl[i], r.ints[big]), Neg(Lim(rl[big], r.ints[i]))), 11, 42))
                \cup C("scale", Below(AddSeq(Times(SumSquare(rl), Pow2(2 * r.e)), Tab(15, LAMBDA i : IF i = 13 THEN -2 ELSE 0)), 12, 20))
                \cup C("sign", Sign(r.ints[big]) * Sign(Sum(r.ints)) = rl[big].s))

Clauses(r) ==
  CASE r.op = "bank" -> IF r.name \in DOMAIN Index THEN Filters(r) \cup Attrs(r) ELSE {"unknown name"}
    [] r.op = "cont" -> IF r.name \in DOMAIN Index THEN Attrs(r) ELSE {"unknown name"}
    [] r.op = "list" -> C("listing", r.names = ListOf(r.family, r.kind))
    [] r.op = "families" -> C("families", r.names = Map(LAMBDA f : IF r.short THEN f.short ELSE f.long, Families))
    [] r.op = "alias" -> C("alias", r.a = r.b)        \* same filters under another spelling
    [] r.op = "exchange" ->                           \* rbio is bior with analysis and synthesis exchanged (and reversed)
         C("exchanged", SameSeq(r.rf[1], Rev(r.bf[3])) /\ SameSeq(r.rf[2], Rev(r.bf[4])) /\ SameSeq(r.rf[3], Rev(r.bf[1])) /\ SameSeq(r.rf[4], Rev(r.bf[2])))
    [] r.op = "qmf" -> C("qmf", Modulated(r.g, Rev(r.f), 1) /\ SameSeq(r.g, r.g2) /\ SameSeq(r.g, r.g3))
    [] r.op = "ofb" -> OFB(r)
    [] r.op = "single" ->       \* rounded to single precision, up to the last place
         C("single precision filters", \A i \in 1..4 : Len(r.got[i]) = Len(r.want[i]) /\ \A j \in DOMAIN r.got[i] : Abs(r.got[i][j] - r.want[i][j]) <= 1)

Report(i) ==
  LET r == Trace[i]
      bad == IF Has(r, "bad") THEN {"raised"} ELSE Clauses(r)
  IN IF bad = {} THEN TRUE ELSE PrintT(<< "BAD", r.id, bad >>)
Init == lane \in 1..W /\ pos = lane - W
Next == /\ pos + W <= Len(Trace)
        /\ pos' = pos + W
        /\ Report(pos')
        /\ UNCHANGED lane
Spec == Init /\ [][Next]_vars
=============================================================================
