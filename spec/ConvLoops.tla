------------------------------ MODULE ConvLoops ------------------------------
(* The inner loops of the decimating convolution at the grain of one            *)
(* multiply-accumulate per step, as the C kernel performs them: the output loop  *)
(* goes through the regions  left overhang / inside / filter wider than the      *)
(* signal / right overhang, and inside one output a scan walks first over the    *)
(* samples beyond the right edge ("back"), then over real samples ("main"), then  *)
(* over the samples before the left edge ("fwd"), producing extension values on   *)
(* the fly.  Signals and filters are symbolic: sum is a linear form over the      *)
(* products h_tap * x_smp, so one behaviour stands for all values.                *)
(*                                                                               *)
(* Checked: every access is in range, every scan ends, exactly the documented     *)
(* number of outputs is written, and each equals  sum_j h_j ext(2o+1-j)  with     *)
(* the declarative extension of module Ext (Refines).                             *)
EXTENDS Ext

CONSTANTS MaxN, Fs, ModeSet, Step

VARIABLES N, F, mode, i, o, seg, j, k, half, le, tmp, sum, out, acc
vars == << N, F, mode, i, o, seg, j, k, half, le, tmp, sum, out, acc >>

ZeroForm == [s \in 0..(N - 1) |-> 0]
E(s) == [ZeroForm EXCEPT ![s] = 1]
Lin(a, x, b, y) == [s \in 0..(N - 1) |-> a * x[s] + b * y[s]]
Lin3(x, y, z) == [s \in 0..(N - 1) |-> x[s] + y[s] - z[s]]     \* x + y - z
NoSum == [t \in 0..(F - 1) |-> ZeroForm]

Init ==
  /\ N \in 1..MaxN /\ F \in Fs /\ mode \in ModeSet
  /\ (NeedsTwo(mode) => N >= 2)
  /\ i = Step - 1 /\ o = 0 /\ seg = "start" /\ j = 0 /\ k = 0 /\ half = 0
  /\ le = ZeroForm /\ tmp = ZeroForm /\ sum = NoSum /\ out = << >> /\ acc = << >>

\* N = 1 smooth degrades to constant
Emode == IF mode = "smooth" /\ N < 2 THEN "constant" ELSE mode
K0 == IF Emode \in {"reflect", "antireflect"} THEN 1 ELSE 0

\* add tap * form; the sample index actually read is recorded for the range check
Mac(tap, form, reads) ==
  /\ acc' = << tap, reads >>
  /\ sum' = IF tap \in 0..(F - 1) THEN [sum EXCEPT ![tap] = Lin(1, @, 1, form)] ELSE sum

Region == CASE i < F /\ i < N -> "left"
            [] i < N -> "inside"
            [] i < F -> "wide"
            [] i < N + F - 1 -> "right"
            [] OTHER -> "end"

BeginOutput ==
  /\ seg = "start"
  /\ sum' = NoSum /\ j' = 0 /\ half' = 0 /\ tmp' = ZeroForm
  /\ seg' = (CASE Region \in {"left", "inside"} -> "main"
               [] Region \in {"wide", "right"} -> "back"
               [] OTHER -> "done")
  /\ k' = IF Emode = "smooth" THEN i - N + 1 ELSE K0
  /\ le' = E(N - 1)
  /\ UNCHANGED << N, F, mode, i, o, out, acc >>

\* ------------------------------------------------ beyond the right edge
BackForm ==       \* value and samples read, for the reflecting modes
  CASE Emode = "symmetric" -> IF half = 0 THEN << E(N - 1 - k), {N - 1 - k} >> ELSE << E(k), {k} >>
    [] Emode = "antisymmetric" -> IF half = 0 THEN << Lin(-1, E(N - 1 - k), 0, ZeroForm), {N - 1 - k} >> ELSE << E(k), {k} >>
    [] Emode = "reflect" -> IF half = 0 THEN << E(N - 1 - k), {N - 1 - k} >> ELSE << E(k), {k} >>
    [] Emode = "antireflect" -> IF half = 0 THEN << Lin3(le, E(N - 1), E(N - 1 - k)), {N - 1 - k, N - 1} >>
                                ELSE << Lin3(le, E(k), E(0)), {k, 0} >>
    [] Emode = "periodic" -> << E(k), {k} >>
Out == i - j >= N
Back ==
  /\ seg = "back"
  /\ \/ /\ Emode = "zero" /\ j' = i - N + 1 /\ seg' = "main"
        /\ UNCHANGED << sum, acc, k, half, le, tmp >>
     \/ /\ Emode = "constant"
        /\ IF Out THEN Mac(j, E(N - 1), {N - 1}) /\ j' = j + 1 /\ UNCHANGED seg
           ELSE seg' = "main" /\ UNCHANGED << j, sum, acc >>
        /\ UNCHANGED << k, half, le, tmp >>
     \/ /\ Emode = "smooth"
        /\ IF Out THEN Mac(j, Lin(1 + k, E(N - 1), -k, E(N - 2)), {N - 1, N - 2}) /\ j' = j + 1 /\ k' = k - 1 /\ UNCHANGED seg
           ELSE seg' = "main" /\ UNCHANGED << j, sum, acc, k >>
        /\ UNCHANGED << half, le, tmp >>
     \/ /\ Emode \in {"symmetric", "antisymmetric", "reflect", "antireflect", "periodic"}
        /\ IF k < N /\ Out
           THEN /\ Mac(i - N - j, BackForm[1], BackForm[2])
                /\ tmp' = IF Emode = "antireflect" THEN BackForm[1] ELSE tmp
                /\ j' = j + 1 /\ k' = k + 1 /\ UNCHANGED << half, le, seg >>
           ELSE /\ le' = IF Emode = "antireflect" THEN tmp ELSE le
                /\ IF half = 0 /\ Emode # "periodic"
                   THEN half' = 1 /\ k' = K0 /\ UNCHANGED seg
                   ELSE IF Out THEN half' = 0 /\ k' = K0 /\ UNCHANGED seg
                   ELSE seg' = "main" /\ UNCHANGED << half, k >>
                /\ UNCHANGED << j, sum, acc, tmp >>
  /\ UNCHANGED << N, F, mode, i, o, out >>

\* ------------------------------------------------ real samples
MainLast == IF Region \in {"left", "wide"} THEN i ELSE F - 1
Main ==
  /\ seg = "main"
  /\ IF j <= MainLast
     THEN Mac(j, IF i - j \in 0..(N - 1) THEN E(i - j) ELSE ZeroForm, {i - j}) /\ j' = j + 1 /\ UNCHANGED << seg, k, half, le, tmp >>
     ELSE /\ IF Region \in {"left", "wide"} /\ Emode # "zero" THEN seg' = "fwd" ELSE seg' = "store"
          /\ k' = IF Emode = "smooth" THEN 1 ELSE K0
          /\ half' = 0 /\ le' = E(0) /\ tmp' = ZeroForm
          /\ UNCHANGED << j, sum, acc >>
  /\ UNCHANGED << N, F, mode, i, o, out >>

\* ------------------------------------------------ before the left edge
FwdForm ==
  CASE Emode = "symmetric" -> IF half = 0 THEN << E(k), {k} >> ELSE << E(N - 1 - k), {N - 1 - k} >>
    [] Emode = "antisymmetric" -> IF half = 0 THEN << Lin(-1, E(k), 0, ZeroForm), {k} >> ELSE << E(N - 1 - k), {N - 1 - k} >>
    [] Emode = "reflect" -> IF half = 0 THEN << E(k), {k} >> ELSE << E(N - 1 - k), {N - 1 - k} >>
    [] Emode = "antireflect" -> IF half = 0 THEN << Lin3(le, E(0), E(k)), {k, 0} >>
                                ELSE << Lin3(le, E(N - 1 - k), E(N - 1)), {N - 1 - k, N - 1} >>
    [] Emode = "periodic" -> << E(N - 1 - k), {N - 1 - k} >>
Fwd ==
  /\ seg = "fwd"
  /\ \/ /\ Emode = "constant"
        /\ IF j < F THEN Mac(j, E(0), {0}) /\ j' = j + 1 /\ UNCHANGED seg
           ELSE seg' = "store" /\ UNCHANGED << j, sum, acc >>
        /\ UNCHANGED << k, half, le, tmp >>
     \/ /\ Emode = "smooth"
        /\ IF j < F THEN Mac(j, Lin(1 + k, E(0), -k, E(1)), {0, 1}) /\ j' = j + 1 /\ k' = k + 1 /\ UNCHANGED seg
           ELSE seg' = "store" /\ UNCHANGED << j, sum, acc, k >>
        /\ UNCHANGED << half, le, tmp >>
     \/ /\ Emode \in {"symmetric", "antisymmetric", "reflect", "antireflect", "periodic"}
        /\ IF k < N /\ j < F
           THEN /\ Mac(j, FwdForm[1], FwdForm[2])
                /\ tmp' = IF Emode = "antireflect" THEN FwdForm[1] ELSE tmp
                /\ j' = j + 1 /\ k' = k + 1 /\ UNCHANGED << half, le, seg >>
           ELSE /\ le' = IF Emode = "antireflect" THEN tmp ELSE le
                /\ IF half = 0 /\ Emode # "periodic"
                   THEN half' = 1 /\ k' = K0 /\ UNCHANGED seg
                   ELSE IF j < F THEN half' = 0 /\ k' = K0 /\ UNCHANGED seg
                   ELSE seg' = "store" /\ UNCHANGED << half, k >>
                /\ UNCHANGED << j, sum, acc, tmp >>
  /\ UNCHANGED << N, F, mode, i, o, out >>

Store ==
  /\ seg = "store"
  /\ out' = Append(out, sum) /\ i' = i + Step /\ o' = o + 1 /\ seg' = "start" /\ acc' = << >>
  /\ UNCHANGED << N, F, mode, j, k, half, le, tmp, sum >>

Next == BeginOutput \/ Back \/ Main \/ Fwd \/ Store
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

-----------------------------------------------------------------------------
InRange == acc = << >> \/ (acc[1] \in 0..(F - 1) /\ acc[2] \subseteq 0..(N - 1))

FormOf(t) == [s \in 0..(N - 1) |-> Sum(Tab(Len(t), LAMBDA z : IF t[z][1] = s THEN t[z][2] ELSE 0))]
Wanted(oo) == [t \in 0..(F - 1) |-> FormOf(ExtTerms(mode, N, Step - 1 + Step * oo - t))]
Refines == seg = "start" /\ out # << >> => out[o] = Wanted(o - 1)
Count == seg = "done" => Len(out) = (N + F - 1) \div Step
Terminates == <>(seg = "done")
=============================================================================
