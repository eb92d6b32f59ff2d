-------------------------------- MODULE MC_Cwt --------------------------------
(* The algorithm as a machine: gather, reverse, full convolution sample by sample,      *)
(* difference, trim -- for small integer tables, signals and scales.                     *)
(* Checked against the declarative row: termination value, linearity in the signal,        *)
(* shift covariance away from the borders, gather indices inside the table and              *)
(* increasing, and that an odd surplus drops one more sample on the right.                   *)
EXTENDS Cwt

CONSTANTS Ranges, MaxNum, MaxDen
Tables == { << 0, 1, 3, 2, 0 >>, << 0, -1, 2, 5, 1, 0, 3 >> }
Sigs == { << 1 >>, << 1, 2, 0 >>, << 1, -2, 3, 5, 0, 0 >>, << 2, 0, 1, 1, 4, 3, 0 >> }
Scales == { << a, b >> : a \in 1..MaxNum, b \in 1..MaxDen }
VARIABLES t, x, sc, rg, pc, g, conv, m, row
vars == << t, x, sc, rg, pc, g, conv, m, row >>

P == Len(t)
J == Sampled(sc[1], sc[2], rg, 1, P)
Init == /\ t \in Tables /\ x \in Sigs /\ sc \in Scales /\ rg \in Ranges
        /\ pc = "gather" /\ g = << >> /\ conv = << >> /\ m = 1 /\ row = << >>
Gather == /\ pc = "gather"
          /\ g' = RevSeq(Map(LAMBDA j : t[j + 1], J))
          /\ pc' = IF TooSmall(J) THEN "reject" ELSE "conv"
          /\ conv' = Zeros(Len(x) + Len(g') - 1)
          /\ UNCHANGED << t, x, sc, rg, m, row >>
Conv == /\ pc = "conv"
        /\ IF m > Len(x) THEN pc' = "diff" /\ UNCHANGED << conv, m >>
           ELSE /\ conv' = Tab(Len(conv), LAMBDA i : conv[i] + x[m] * GAt(g, i - m))
                /\ m' = m + 1 /\ pc' = pc
        /\ UNCHANGED << t, x, sc, rg, g, row >>
Diff == /\ pc = "diff"
        /\ LET d == Tab(Len(conv) - 1, LAMBDA i : conv[i + 1] - conv[i])
               ex == Len(d) - Len(x)
           IN row' = SubSeq(d, ex \div 2 + 1, Len(d) - CeilDiv(ex, 2))
        /\ pc' = "done"
        /\ UNCHANGED << t, x, sc, rg, g, conv, m >>
Next == Gather \/ Conv \/ Diff
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

Indices == /\ J[1] = 0
           /\ \A k \in DOMAIN J : J[k] \in 0..(P - 1)
           /\ \A k \in 1..(Len(J) - 1) : J[k] <= J[k + 1]
Right == pc = "done" => row = CwtRow(x, g)
ShiftR(s) == << 0 >> \o SubSeq(s, 1, Len(s) - 1)
Covariant == pc = "done" /\ Last1(x) = 0 =>
   LET r2 == CwtRow(ShiftR(x), g) IN \A i \in 2..Len(x) : r2[i] = row[i - 1]
Additive == pc = "done" => \A k \in DOMAIN x :
   LET u == Tab(Len(x), LAMBDA i : IF i = k THEN x[i] ELSE 0)
       v == Tab(Len(x), LAMBDA i : IF i = k THEN 0 ELSE x[i])
   IN AddSeq(CwtRow(u, g), CwtRow(v, g)) = row
Inv == Indices /\ Right /\ Covariant /\ Additive
Ends == <>(pc \in {"done", "reject"})
=============================================================================
