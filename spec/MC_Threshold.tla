----------------------------- MODULE MC_Threshold -----------------------------
(* Checks the defining formulas against each other on the whole grid, and emits the   *)
(* table of expected results that is replayed into the implementation.                 *)
EXTENDS Threshold, Json, IOUtils
CONSTANTS MaxV
VARIABLES job
Vals == 0..MaxV \cup {Inf}
CModes == {"soft", "garrote", "garotte", "hard"}
RModes == CModes \cup {"greater", "less"}
Row(mode, x, t, t2, s, o) == << mode, x.re, x.im, x.m, t, t2, s, o.re, o.im, o.den, o.sub >>

\* an infinite value against an infinite threshold is not defined
Defined(S) == SetToSeq({r \in S : ~(r[4] = Inf /\ (r[5] = Inf \/ r[6] = Inf))})
TableC == {Row(mo, x, t, 0, s, Op(mo, x, t, s)) : mo \in CModes, x \in Gauss(MaxV), t \in Vals, s \in BOOLEAN}
TableR == {Row(mo, x, t, 0, s, Op(mo, x, t, s)) : mo \in CModes, x \in Reals(MaxV), t \in Vals, s \in BOOLEAN}
          \cup {Row(mo, x, t, 0, s, Op(mo, x, t, s)) : mo \in {"greater", "less"}, x \in Reals(MaxV), t \in (-MaxV)..MaxV, s \in BOOLEAN}
TableF == {Row("firm", x, p[1], p[2], FALSE, Firm(x, p[1], p[2])) : x \in Reals(MaxV) \cup Gauss(MaxV), p \in {q \in (0..MaxV) \X Vals : q[1] <= q[2]}}

Emit(j) ==
  CASE j = 1 -> JsonSerialize(IOEnv.OUTDIR \o "/real.json", Defined(TableR))
    [] j = 2 -> JsonSerialize(IOEnv.OUTDIR \o "/cplx.json", Defined(TableC))
    [] j = 3 -> JsonSerialize(IOEnv.OUTDIR \o "/firm.json", Defined(TableF))
Init == job = 0
Next == \E j \in 1..3 : job = 0 /\ job' = j /\ Emit(j)
Spec == Init /\ [][Next]_job

(* |a/b| <= |c/d| for fractions of the same element *)
Mag2(o) == << o.re * o.re + o.im * o.im, o.den >>
LeqMag(o, p) == IF p.den = 0 THEN TRUE ELSE IF o.den = 0 THEN FALSE
                ELSE (o.re * p.den) * (o.re * p.den) + (o.im * p.den) * (o.im * p.den)
                     <= (p.re * o.den) * (p.re * o.den) + (p.im * o.den) * (p.im * o.den)
SmallC == {x \in Gauss(MaxV) : x.m <= 5}
Shrinks == \A x \in SmallC, t \in 0..6 :
   /\ LeqMag(Soft(x, t, FALSE), Garrote(x, t, FALSE))
   /\ LeqMag(Garrote(x, t, FALSE), Hard(x, t, FALSE))
   /\ LeqMag(Hard(x, t, FALSE), Keep(x))
FirmBetween == \A x \in SmallC, t \in 0..6, u \in 0..6 : t <= u =>
   /\ LeqMag(Soft(x, t, FALSE), Firm(x, t, u)) /\ LeqMag(Firm(x, t, u), Keep(x))
   /\ (x.m >= u /\ x.m # t) => LeqMag(Keep(x), Firm(x, t, u))     \* continuous at the upper threshold
Phase == \A x \in SmallC, t \in 0..6 : LET o == Soft(x, t, FALSE) IN o.re * x.im = o.im * x.re /\ o.re * x.re >= 0
=============================================================================
