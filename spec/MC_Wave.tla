------------------------------- MODULE MC_Wave -------------------------------
(* Multilevel analysis and synthesis as a machine: Split takes the current         *)
(* approximation one level down and stacks its detail, Turn starts synthesis,       *)
(* Merge pops a detail, drops the surplus sample and goes one level up.             *)
(* Banks (from BANKS, the ones the harness replays on the code) are dyadic          *)
(* perfect-reconstruction pairs; signals are scaled unit impulses, so by linearity  *)
(* the invariants hold for every signal of those lengths.                            *)
EXTENDS Multi, Json, IOUtils

CONSTANTS MaxN, MaxDepth, ModeSet

Banks == JsonDeserialize(IOEnv.BANKS)
VARIABLES b, mode, N, imp, hist, stack, cur, dir
vars == << b, mode, N, imp, hist, stack, cur, dir >>

bank == Banks[b]
Scale == Pow2(MaxDepth * (bank.ds + bank.rs))
Init ==
  /\ b \in 1..Len(Banks) /\ mode \in ModeSet /\ N \in 1..MaxN
  /\ imp \in 0..(N - 1)
  /\ cur = [n \in 1..N |-> IF n = imp + 1 THEN Scale ELSE 0]
  /\ (NeedsTwo(mode) => N >= 2)
  /\ hist = << >> /\ stack = << >> /\ dir = "down"

Depth == Len(hist)
CanSplit == dir = "down" /\ Depth < MaxDepth /\ ~(NeedsTwo(mode) /\ Len(cur) < 2)
Split ==
  /\ CanSplit
  /\ LET c == Dwt1(cur, bank, mode) IN
     /\ hist' = Append(hist, cur) /\ stack' = Append(stack, c.d) /\ cur' = c.a
  /\ UNCHANGED << b, mode, N, imp, dir >>
Turn == dir = "down" /\ Depth > 0 /\ dir' = "up" /\ UNCHANGED << b, mode, N, imp, hist, stack, cur >>
Merge ==
  /\ dir = "up" /\ stack # << >>
  /\ LET d == Last1(stack)
         a == Slice(cur, 0, Len(d))
     IN cur' = Idwt1(a, d, bank, mode)
  /\ stack' = SubSeq(stack, 1, Len(stack) - 1)
  /\ hist' = SubSeq(hist, 1, Len(hist) - 1)
  /\ UNCHANGED << b, mode, N, imp, dir >>
Next == Split \/ Turn \/ Merge
Spec == Init /\ [][Next]_vars

\* a merge reproduces the approximation it replaces, plus the surplus sample of an odd length
Target == IF dir = "up" /\ Depth < MaxDepth THEN hist ELSE << >>
MergeRestores == [][dir = "up" /\ stack # << >> =>
                      LET want == Last1(hist) IN
                      /\ Len(cur') = Len(want) + (Len(want) % 2)
                      /\ Slice(cur', 0, Len(want)) = want]_vars
\* the detail and the approximation of one level have the predicted length
Lengths == [][dir' = "down" => /\ Len(cur') = DwtLen(Len(cur), FLen(bank), mode)
                               /\ Len(Last1(stack')) = Len(cur')]_vars
\* the surplus: an approximation met by a detail is equal or one longer
Meets == dir = "up" /\ stack # << >> => Len(cur) - Len(Last1(stack)) \in {0, 1}
\* branches add up
Superpose == [][dir = "up" /\ stack # << >> =>
                  LET d == Last1(stack)
                      a == Slice(cur, 0, Len(d))
                  IN cur' = AddSeq(Idwt1(a, Zeros(Len(d)), bank, mode), Idwt1(Zeros(Len(d)), d, bank, mode))]_vars
=============================================================================
