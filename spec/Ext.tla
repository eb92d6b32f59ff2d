--------------------------------- MODULE Ext --------------------------------
(* The nine signal extension modes, declaratively: ExtTerms(mode, N, i) is    *)
(* the value of the extended signal at any integer position i (0-based), as   *)
(* a linear combination <<<<k, c>>, ...>> of the samples x_k, 0 <= k < N.     *)
(* ExtAt evaluates it on an integer signal.                                   *)
EXTENDS Util

Modes == {"zero", "constant", "symmetric", "reflect", "periodic", "smooth",
          "periodization", "antisymmetric", "antireflect"}

(* reflections of whole-sample type need two samples *)
NeedsTwo(mode) == mode \in {"reflect", "antireflect"}

ExtTerms(mode, N, i) ==
  LET P  == N + (N % 2)                 \* periodization: odd lengths repeat the last sample
      q  == i \div N                    \* which copy (floor)
      r  == i % N
      q1 == i \div (N - 1)              \* whole-sample copies
      r1 == i % (N - 1)
      rr == i % (2 * (N - 1))
      rs == i % (2 * N)
  IN CASE 0 <= i /\ i < N -> << <<i, 1>> >>
     [] mode = "zero"     -> << >>
     [] mode = "constant" \/ (mode \in {"smooth", "reflect", "antireflect"} /\ N = 1)
                          -> << <<IF i < 0 THEN 0 ELSE N - 1, 1>> >>
     [] mode = "symmetric" -> << <<IF rs < N THEN rs ELSE 2 * N - 1 - rs, 1>> >>
     [] mode = "antisymmetric" ->
          << <<IF q % 2 = 0 THEN r ELSE N - 1 - r, IF q % 2 = 0 THEN 1 ELSE -1>> >>
     [] mode = "reflect"  -> << <<IF rr < N THEN rr ELSE 2 * (N - 1) - rr, 1>> >>
     [] mode = "antireflect" ->
          IF q1 % 2 = 0 THEN << <<r1, 1>>, <<N - 1, q1>>, <<0, -q1>> >>
          ELSE << <<N - 1 - r1, -1>>, <<N - 1, q1 + 1>>, <<0, 1 - q1>> >>
     [] mode = "periodic" -> << <<r, 1>> >>
     [] mode = "periodization" -> << <<Min2(i % P, N - 1), 1>> >>
     [] mode = "smooth" ->
          IF i < 0 THEN << <<0, 1 - i>>, <<1, i>> >>
          ELSE << <<N - 1, i - N + 2>>, <<N - 2, -(i - N + 1)>> >>

ExtAt(mode, x, i) ==
  LET t == ExtTerms(mode, Len(x), i)
  IN IF 0 <= i /\ i < Len(x) THEN x[i + 1]
     ELSE IF Len(t) = 0 THEN 0
     ELSE IF Len(t) = 1 THEN t[1][2] * x[t[1][1] + 1]
     ELSE Sum([j \in 1..Len(t) |-> t[j][2] * x[t[j][1] + 1]])
=============================================================================
