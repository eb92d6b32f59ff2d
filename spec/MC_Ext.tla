-------------------------------- MODULE MC_Ext --------------------------------
(* The extension rule of every mode is pinned down by its symmetries: a walk over     *)
(* positions checks that ExtAt keeps the signal, and obeys the functional equation     *)
(* that defines the mode at every position.                                           *)
EXTENDS Padding

CONSTANTS MaxN, ModeSet, Reach
VARIABLES x, mode, i, dir
vars == << x, mode, i, dir >>

Sigs == {Tab(n, LAMBDA k : (((k * k * 7 + 3 * k * s) % 23) - 11)) : n \in 1..MaxN, s \in 1..2} \cup {Tab(n, LAMBDA k : IF k = p THEN 1 ELSE 0) : n \in 1..MaxN, p \in 1..MaxN}
E(p) == ExtAt(mode, x, p)
N == Len(x)
Init == x \in Sigs /\ mode \in ModeSet /\ i = 0 /\ dir \in {1, -1}
Next == Abs(i) < Reach * N /\ i' = i + dir /\ UNCHANGED << x, mode, dir >>
Spec == Init /\ [][Next]_vars

Keeps == 0 <= i /\ i < N => E(i) = x[i + 1]
Two == N > 1 \/ mode \notin {"reflect", "antireflect", "smooth"}
Equation ==
  CASE mode = "zero" -> (i < 0 \/ i >= N) => E(i) = 0
    [] mode = "constant" -> (i < 0 => E(i) = x[1]) /\ (i >= N => E(i) = x[N])
    [] mode = "symmetric" -> E(-1 - i) = E(i) /\ E(2 * N - 1 - i) = E(i)
    [] mode = "antisymmetric" -> E(-1 - i) = -E(i) /\ E(2 * N - 1 - i) = -E(i)
    [] mode = "periodic" -> E(i + N) = E(i)
    [] mode = "periodization" -> IF N % 2 = 0 THEN E(i + N) = E(i) ELSE E(i + N + 1) = E(i) /\ E(N) = x[N]
    [] ~Two -> E(i) = x[1]
    [] mode = "reflect" -> E(-i) = E(i) /\ E(2 * (N - 1) - i) = E(i)
    [] mode = "antireflect" -> E(-i) = 2 * x[1] - E(i) /\ E(2 * (N - 1) - i) = 2 * x[N] - E(i)
    [] mode = "smooth" -> (i < 0 => E(i) - 2 * E(i + 1) + E(i + 2) = 0) /\ (i >= N => E(i) - 2 * E(i - 1) + E(i - 2) = 0)
\* padding in two steps is padding once, for the modes whose rule does not depend on the signal's length
TwoSteps == mode \in {"zero", "constant", "smooth"} /\ (mode = "smooth" => N > 1) /\ i \in 0..3 =>
  PadLine(PadLine(x, mode, i, 1), mode, 2, i) = PadLine(x, mode, i + 2, i + 1)
=============================================================================
