------------------------------- MODULE PerLoops -------------------------------
(* Circular (periodization / stationary) decimating convolution, one multiply-     *)
(* accumulate per step, over symbolic signals and filters as in ConvLoops.          *)
(*   step = 2, fstep = 1      the periodized DWT: an odd length is padded by one     *)
(*                            repetition of the last sample                          *)
(*   step = 1, fstep = 2^(l-1) the stationary transform at level l: the filter has   *)
(*                            F = fstep * F0 taps, non-zero only at multiples of      *)
(*                            fstep; N is a multiple of 2 fstep                       *)
(* Checked: accesses in range, every scan ends, output count, and                    *)
(*   y_o = sum_j h_j ext_periodization(F/2 + step o - j)  over the non-zero taps j.  *)
EXTENDS Ext

CONSTANTS MaxN, F0s, Steps            \* Steps: set of <<step, fstep>>

VARIABLES N, F, step, fstep, i, o, seg, j, k, half, kstart, sum, out, acc
vars == << N, F, step, fstep, i, o, seg, j, k, half, kstart, sum, out, acc >>

ZeroForm == [s \in 0..(N - 1) |-> 0]
NoSum == [t \in 0..(F - 1) |-> ZeroForm]
Padding == (step - (N % step)) % step

Init ==
  /\ N \in 1..MaxN
  /\ \E f \in F0s, st \in Steps : step = st[1] /\ fstep = st[2] /\ F = f * st[2]
  /\ (step = 1 => N % (2 * fstep) = 0)
  /\ i = F \div 2 /\ o = 0 /\ seg = "start" /\ j = 0 /\ k = 0 /\ half = 0 /\ kstart = 0
  /\ sum = NoSum /\ out = << >> /\ acc = << >>

Region == CASE i < F /\ i < N -> 1
            [] i < N -> 2
            [] i < F /\ i < N + F \div 2 -> 3
            [] i < N + F \div 2 -> 4
            [] OTHER -> 5

Mac(tap, smp) ==
  /\ acc' = << tap, smp >>
  /\ sum' = IF tap \in 0..(F - 1) /\ smp \in 0..(N - 1) THEN [sum EXCEPT ![tap] = [@ EXCEPT ![smp] = @ + 1]] ELSE sum
NoMac == UNCHANGED << acc, sum >>

BeginOutput ==
  /\ seg = "start" /\ j' = 0 /\ k' = 0 /\ half' = 0 /\ kstart' = 0 /\ sum' = NoSum
  /\ seg' = (CASE Region \in {1, 2} -> "main" [] Region \in {3, 4} -> "back" [] OTHER -> "done")
  /\ UNCHANGED << N, F, step, fstep, i, o, out, acc >>

Align(x) == IF fstep > 1 THEN x + ((fstep - (x % fstep)) % fstep) ELSE x
Back ==
  /\ seg = "back"
  /\ LET lim == IF half = 0 THEN Padding ELSE N IN
     IF k < lim /\ i - j >= N
     THEN Mac(i - N - j, IF half = 0 THEN N - 1 ELSE k) /\ k' = k + 1 /\ j' = j + 1 /\ UNCHANGED << half, seg >>
     ELSE /\ NoMac
          /\ IF half = 0 THEN half' = 1 /\ k' = 0 /\ UNCHANGED << seg, j >>
             ELSE IF i - j >= N THEN half' = 0 /\ k' = 0 /\ UNCHANGED << seg, j >>
             ELSE seg' = "main" /\ j' = Align(j) /\ UNCHANGED << half, k >>
  /\ UNCHANGED << N, F, step, fstep, i, o, kstart, out >>

Main ==
  /\ seg = "main"
  /\ IF j <= (IF Region \in {1, 3} THEN i ELSE F - 1)
     THEN Mac(j, i - j) /\ j' = j + fstep /\ UNCHANGED << seg, k, half, kstart >>
     ELSE /\ NoMac
          /\ kstart' = IF fstep > 1 THEN j - (i + 1) ELSE 0
          /\ k' = kstart' /\ half' = 0
          /\ seg' = IF Region \in {1, 3} /\ j < F THEN "fwd" ELSE "store"
          /\ UNCHANGED j
  /\ UNCHANGED << N, F, step, fstep, i, o, out >>

Fwd ==
  /\ seg = "fwd"
  /\ LET lim == IF half = 0 THEN Padding ELSE N IN
     IF k < lim /\ j < F
     THEN Mac(j, IF half = 0 THEN N - 1 ELSE N - 1 - k) /\ k' = k + fstep /\ j' = j + fstep /\ UNCHANGED << half, seg >>
     ELSE /\ NoMac /\ UNCHANGED j
          /\ IF half = 0 THEN half' = 1 /\ k' = kstart /\ UNCHANGED seg
             ELSE IF j < F THEN half' = 0 /\ k' = kstart /\ UNCHANGED seg
             ELSE seg' = "store" /\ UNCHANGED << half, k >>
  /\ UNCHANGED << N, F, step, fstep, i, o, kstart, out >>

Store ==
  /\ seg = "store"
  /\ out' = Append(out, sum) /\ i' = i + step /\ o' = o + 1 /\ seg' = "start" /\ acc' = << >>
  /\ UNCHANGED << N, F, step, fstep, j, k, half, kstart, sum >>

Next == BeginOutput \/ Back \/ Main \/ Fwd \/ Store
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

-----------------------------------------------------------------------------
InRange == acc = << >> \/ (acc[1] \in 0..(F - 1) /\ acc[2] \in 0..(N - 1))
Nonzero == {t \in 0..(F - 1) : t % fstep = 0}
FormOf(t) == [s \in 0..(N - 1) |-> Sum(Tab(Len(t), LAMBDA z : IF t[z][1] = s THEN t[z][2] ELSE 0))]
Wanted(oo, t) ==
  LET pos == F \div 2 + step * oo - t
  IN IF step = 2 THEN FormOf(ExtTerms("periodization", N, pos)) ELSE FormOf(ExtTerms("periodic", N, pos))
Refines == seg = "start" /\ out # << >> => \A t \in Nonzero : out[o][t] = Wanted(o - 1, t)
Count == seg = "done" => Len(out) = CeilDiv(N, step)
Terminates == <>(seg = "done")
=============================================================================
