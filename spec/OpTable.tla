------------------------------- MODULE OpTable -------------------------------
(* Emits, for requested (kind, mode, N, F, ...), the transform as a symbolic      *)
(* operator, so that it can be applied to real-valued filters and signals:        *)
(*  ana: extended positions lo..hi as linear combinations of samples, and the      *)
(*       outputs y_o = sum_j h_j e(first + 2 o - j)                                *)
(*  syn: y_n = sum over listed (k, j) of c_k g_j                                   *)
(*  up: the complete convolution of the upsampled signal, pairs as for syn        *)
(*  cwt: sample positions of the integrated wavelet at one scale (module Cwt)      *)
(*  swt: y_n = sum_j h_j x[idx(n, j)]                                              *)
EXTENDS Swt, Cwt, Json, IOUtils

Reqs == ndJsonDeserialize(IOEnv.REQS)
W == 16
VARIABLES lane, pos

Ana(r) ==
  LET n == DwtLen(r.N, r.F, r.mode)
      first == IF r.mode = "periodization" THEN r.F \div 2 ELSE 1
      lo == first - r.F + 1
      hi == first + 2 * (n - 1)
  IN [n |-> n, first |-> first, lo |-> lo,
      e |-> Tab(hi - lo + 1, LAMBDA p : ExtTerms(r.mode, r.N, lo + p - 1))]

\* the pairs (k, j) with c_k g_j contributing to full-convolution position m
FullPairs(N, F, m) ==
  LET klo == Max2(0, CeilDiv(m - F + 1, 2))
      khi == Min2(N - 1, m \div 2)
  IN Tab(Max2(0, khi - klo + 1), LAMBDA z : << klo + z - 1, m - 2 * (klo + z - 1) >>)
Syn(r) ==
  LET full == 2 * r.N + r.F - 2
      L == 2 * r.N
      n == IdwtLen(r.N, r.F, r.mode)
  IN [n |-> n,
      t |-> Tab(n, LAMBDA nn :
        IF r.mode # "periodization" THEN FullPairs(r.N, r.F, nn - 1 + r.F - 2)
        ELSE LET m0 == (nn - 1 + r.F \div 2 - 1) % L
                 cnt == IF m0 >= full THEN 0 ELSE (full - 1 - m0) \div L + 1
             IN FoldLeft(LAMBDA acc, t : acc \o FullPairs(r.N, r.F, m0 + (t - 1) * L), << >>,
                         [t \in 1..cnt |-> t]))]
Up(r) == LET n == 2 * r.N + r.F - 2 IN [n |-> n, t |-> Tab(n, LAMBDA nn : FullPairs(r.N, r.F, nn - 1))]
SwtIdx(r) ==
  [n |-> r.N, i |-> Tab(r.N, LAMBDA n : Tab(r.F, LAMBDA j :
     (n - 1 + (r.F * r.s) \div 2 - (j - 1) * r.s) % r.N))]

Emit(i) ==
  LET r == Reqs[i]
      v == CASE r.kind = "ana" -> Ana(r) [] r.kind = "syn" -> Syn(r) [] r.kind = "swt" -> SwtIdx(r)
             [] r.kind = "up" -> Up(r) [] r.kind = "cwt" -> Terms(r.N, r.F, r.rn, r.rd, r.P, r.s)
  IN JsonSerialize(IOEnv.OUTDIR \o "/" \o ToString(i) \o ".json", v)

Init == lane \in 1..W /\ pos = lane - W
Next == /\ pos + W <= Len(Reqs)
        /\ pos' = pos + W
        /\ Emit(pos')
        /\ UNCHANGED lane
Spec == Init /\ [][Next]_<< lane, pos >>
=============================================================================
