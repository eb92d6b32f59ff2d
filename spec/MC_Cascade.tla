------------------------------ MODULE MC_Cascade ------------------------------
(* The cascade as a machine refining one level per step, for integer banks.          *)
(* Checked: both orders of refinement agree (kernel-order as implemented, two-scale    *)
(* relation as in the theory), lengths, support and grid, total mass, the partition     *)
(* of unity for filters that satisfy the sum rule, and the zero integral of wavelets.   *)
EXTENDS Cascade, Json, IOUtils

CONSTANTS MaxLevel
Banks == JsonDeserialize(IOEnv.BANKS)
VARIABLES b, n, phi, psi
vars == << b, n, phi, psi >>

Init == b \in DOMAIN Banks /\ n = 1 /\ phi = Banks[b].rl /\ psi = Banks[b].rh
Next == /\ n < MaxLevel
        /\ CascLen(FLen(Banks[b]), n) <= 120
        /\ n' = n + 1
        /\ phi' = UpFull(phi, Banks[b].rl, 0)
        /\ psi' = UpFull(psi, Banks[b].rl, 0)
        /\ UNCHANGED b
Spec == Init /\ [][Next]_vars

F == FLen(Banks[b])
Declared == phi = Casc("a", Banks[b], n) /\ psi = Casc("d", Banks[b], n)
Length == Len(phi) = CascLen(F, n) /\ Len(psi) = CascLen(F, n)
Fits == \A o \in BOOLEAN : /\ GridLen(F, n, o) >= CascLen(F, n) + 2
                           /\ CascLen(F, n) <= (F - 1) * Pow2(n)            \* inside the support
                           /\ Len(OnGrid(phi, F, n, o)) = GridLen(F, n, o)
Mass == Sum(phi) = Pow(Sum(Banks[b].rl), n) /\ Sum(psi) = Sum(Banks[b].rh) * Pow(Sum(Banks[b].rl), n - 1)
Two == n > 1 => LET p == Casc("a", Banks[b], n - 1)
                IN phi = Refined(Banks[b].rl, p, n) /\ psi = Refined(Banks[b].rh, p, n)
Even(f) == Sum(Tab(Len(f) \div 2, LAMBDA i : f[2 * i - 1]))
Odd(f) == Sum(Tab(Len(f) \div 2, LAMBDA i : f[2 * i]))
\* shifts by whole units of a scaling function whose filter satisfies the sum rule add up to a constant
Unity == Even(Banks[b].rl) = Odd(Banks[b].rl) =>
           \A r \in 0..(Pow2(n) - 1) :
             Sum(Tab(F, LAMBDA k : LET p == r + (k - 1) * Pow2(n) + 1 IN IF p <= Len(phi) THEN phi[p] ELSE 0))
               = Pow(Even(Banks[b].rl), n)
ZeroMean == Sum(Banks[b].rh) = 0 => Last1(Running(psi)) = 0
Inv == Declared /\ Length /\ Fits /\ Mass /\ Two /\ Unity /\ ZeroMean
=============================================================================
