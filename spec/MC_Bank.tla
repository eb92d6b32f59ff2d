------------------------------- MODULE MC_Bank -------------------------------
(* Properties of the harness's integer filter banks under the specification:       *)
(*   K-reconstruction in every mode (K = the bank's integer gain),                   *)
(*   orthogonality/energy in periodization for the banks flagged orthogonal.         *)
(* (The machine walks the impulse through the signal, one position per step.)        *)
EXTENDS Dwt, Json, IOUtils
CONSTANTS MaxN, ModeSet
Banks == JsonDeserialize(IOEnv.BANKS)
VARIABLES b, mode, N, pos
vars == << b, mode, N, pos >>
bank == Banks[b]
Imp(p) == [n \in 1..N |-> IF n = p + 1 THEN 1 ELSE 0]
Init == b \in 1..Len(Banks) /\ mode \in ModeSet /\ N \in 1..MaxN /\ pos = 0 /\ (NeedsTwo(mode) => N >= 2)
Next == pos + 1 < N /\ pos' = pos + 1 /\ UNCHANGED << b, mode, N >>
Spec == Init /\ [][Next]_vars

Round == LET c == Dwt1(Imp(pos), bank, mode) IN Idwt1(c.a, c.d, bank, mode)
PR == LET y == Round IN Len(y) = N + (N % 2) /\ Slice(y, 0, N) = ScaleSeq(bank.gain, Imp(pos))
Dot(x, y) == Sum(Tab(Len(x), LAMBDA i : x[i] * y[i]))
Energy == bank.orth /\ mode = "periodization" /\ N % 2 = 0 =>
  \A q \in 0..pos :
    LET c == Dwt1(Imp(pos), bank, mode)
        e == Dwt1(Imp(q), bank, mode)
    IN Dot(c.a, e.a) + Dot(c.d, e.d) = IF q = pos THEN bank.gain ELSE 0
=============================================================================
