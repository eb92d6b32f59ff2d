-------------------------------- MODULE UpLoops --------------------------------
(* The upsampling (synthesis) kernels, one pair of multiply-accumulates per step:  *)
(*   "full"  the complete convolution of the upsampled signal (upcoef)              *)
(*   "valid" only positions where the whole filter overlaps the signal (idwt)       *)
(*   "per"   the circular variant, scanning past either end by wrapping             *)
(* Every access uses filter taps 2j and 2j+1 with one sample and adds into two      *)
(* outputs.  out[p] is a linear form over tap x sample products.                    *)
(* Checked: filter, input and output indices in range, termination, and the result   *)
(* against the declarative synthesis of module Dwt (FullPos / circular positions).   *)
EXTENDS Util

CONSTANTS MaxN, Fs, Kinds

VARIABLES N, F, kind, i, o, seg, j, k, out, acc
vars == << N, F, kind, i, o, seg, j, k, out, acc >>

OutLen == CASE kind = "full" -> 2 * N + F - 2
            [] kind = "valid" -> 2 * N - F + 2
            [] kind = "per" -> 2 * N
Half == F \div 2
Start == F \div 4
Shifted == Half % 2 = 0
End == CASE kind = "full" -> N + Half - 1
         [] kind = "valid" -> N
         [] kind = "per" -> N + Start - (IF Shifted THEN 1 ELSE 0)

Init ==
  /\ N \in 1..MaxN /\ F \in Fs /\ kind \in Kinds
  /\ (kind = "valid" => N >= F \div 2)
  /\ i = (CASE kind = "full" -> 0 [] kind = "valid" -> F \div 2 - 1 [] kind = "per" -> F \div 4)
  /\ o = 0
  /\ seg = (IF kind = "per" /\ (F \div 2) % 2 = 0 THEN "wrap0" ELSE "start")
  /\ j = 0 /\ k = 0
  /\ out = [p \in 0..(OutLen - 1) |-> << >>]     \* bag of <<tap, sample>> in order of addition
  /\ acc = << >>

Add2(q0, q1, t0, t1, s) ==
  /\ acc' = << {q0, q1}, {t0, t1}, s >>
  /\ out' = IF {q0, q1} \subseteq DOMAIN out
            THEN [out EXCEPT ![q0] = Append(@, << t0, s >>), ![q1] = Append(@, << t1, s >>)]
            ELSE out

(* the output that straddles the end of the circle: even part to 2N-1, odd to 0 *)
Wrap0 ==                                  \* while (j <= start - 1), scanning forward
  /\ seg = "wrap0"
  /\ IF j <= Start - 1
     THEN IF k < N THEN Add2(2 * N - 1, 0, 2 * (Start - 1 - j), 2 * (Start - 1 - j) + 1, k) /\ k' = k + 1 /\ j' = j + 1 /\ UNCHANGED seg
          ELSE k' = 0 /\ UNCHANGED << out, acc, j, seg >>
     ELSE seg' = "wrap1" /\ UNCHANGED << out, acc, j, k >>
  /\ UNCHANGED << N, F, kind, i, o >>
Wrap1 ==
  /\ seg = "wrap1"
  /\ IF j <= N + Start - 1 /\ j < Half
     THEN Add2(2 * N - 1, 0, 2 * j, 2 * j + 1, N + Start - 1 - j) /\ j' = j + 1 /\ UNCHANGED << k, seg >>
     ELSE seg' = "wrap2" /\ k' = 0 /\ UNCHANGED << out, acc, j >>
  /\ UNCHANGED << N, F, kind, i, o >>
Wrap2 ==
  /\ seg = "wrap2"
  /\ IF j < Half
     THEN IF k < N THEN Add2(2 * N - 1, 0, 2 * j, 2 * j + 1, N - 1 - k) /\ k' = k + 1 /\ j' = j + 1 /\ UNCHANGED << seg, o >>
          ELSE k' = 0 /\ UNCHANGED << out, acc, j, seg, o >>
     ELSE seg' = "start" /\ o' = 1 /\ UNCHANGED << out, acc, j, k >>
  /\ UNCHANGED << N, F, kind, i >>

BeginOutput ==
  /\ seg = "start"
  /\ IF i >= End THEN seg' = "done" /\ UNCHANGED << j, k >>
     ELSE /\ k' = 0
          /\ IF kind = "per" /\ i >= N THEN seg' = "back" /\ j' = 0
             ELSE /\ seg' = "main"
                  /\ j' = IF kind = "full" /\ i >= N THEN i - (N - 1) ELSE 0
  /\ UNCHANGED << N, F, kind, i, o, out, acc >>
Back ==
  /\ seg = "back"
  /\ IF i - j >= N
     THEN IF k < N THEN Add2(o, o + 1, 2 * (i - N - j), 2 * (i - N - j) + 1, k) /\ k' = k + 1 /\ j' = j + 1 /\ UNCHANGED seg
          ELSE k' = 0 /\ UNCHANGED << out, acc, j, seg >>
     ELSE seg' = "main" /\ UNCHANGED << out, acc, j, k >>
  /\ UNCHANGED << N, F, kind, i, o >>
Main ==
  /\ seg = "main"
  /\ IF j <= i /\ j < Half
     THEN Add2(o, o + 1, 2 * j, 2 * j + 1, i - j) /\ j' = j + 1 /\ UNCHANGED << seg, k >>
     ELSE /\ k' = 0 /\ UNCHANGED << out, acc, j >>
          /\ seg' = IF kind = "per" /\ j < Half THEN "fwd" ELSE "store"
  /\ UNCHANGED << N, F, kind, i, o >>
Fwd ==
  /\ seg = "fwd"
  /\ IF j < Half
     THEN IF k < N THEN Add2(o, o + 1, 2 * j, 2 * j + 1, N - 1 - k) /\ k' = k + 1 /\ j' = j + 1 /\ UNCHANGED seg
          ELSE k' = 0 /\ UNCHANGED << out, acc, j, seg >>
     ELSE seg' = "store" /\ UNCHANGED << out, acc, j, k >>
  /\ UNCHANGED << N, F, kind, i, o >>
Store ==
  /\ seg = "store" /\ i' = i + 1 /\ o' = o + 2 /\ seg' = "start"
  /\ UNCHANGED << N, F, kind, j, k, out, acc >>

Next == Wrap0 \/ Wrap1 \/ Wrap2 \/ BeginOutput \/ Back \/ Main \/ Fwd \/ Store
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

-----------------------------------------------------------------------------
InRange == acc = << >> \/ (/\ acc[1] \subseteq 0..(OutLen - 1)
                           /\ acc[2] \subseteq 0..(F - 1) /\ acc[3] \in 0..(N - 1))

\* declarative: position m of the full convolution is sum over 2k + t = m of c_k g_t
FullTerms(m) == {<< t, s >> \in (0..(F - 1)) \X (0..(N - 1)) : t + 2 * s = m}
WantedTerms(p) ==
  CASE kind = "full" -> FullTerms(p)
    [] kind = "valid" -> FullTerms(p + F - 2)
    [] kind = "per" -> UNION {FullTerms(m) : m \in {q \in 0..(2 * N + F - 3) : (q - (p + F \div 2 - 1)) % (2 * N) = 0}}
Bag(seq) == RangeOf(seq)
Refines == seg = "done" => \A p \in 0..(OutLen - 1) :
              /\ Cardinality(Bag(out[p])) = Len(out[p])     \* nothing added twice
              /\ Bag(out[p]) = WantedTerms(p)
Terminates == <>(seg = "done")
=============================================================================
