--------------------------------- MODULE Dwt --------------------------------
(* One-dimensional decimated transform and its synthesis, on integer signals. *)
(* A bank is a record [dl, dh, rl, rh : Seq(Int), ds, rs : Nat]: decomposition *)
(* and reconstruction filters; a tap's value is its integer divided by 2^ds    *)
(* (resp. 2^rs).  Every division performed must be exact (ASSERTed), so the    *)
(* specification computes in exact dyadic arithmetic.                          *)
EXTENDS Ext

ExactDiv(v, s) == IF s = 0 THEN v
                  ELSE IF v % Pow2(s) = 0 THEN v \div Pow2(s)
                  ELSE Assert(FALSE, <<"inexact division", v, s>>)

FLen(bank) == Len(bank.dl)
RLen(bank) == Len(bank.rl)

DwtLen(N, F, mode) == IF mode = "periodization" THEN CeilDiv(N, 2) ELSE (N + F - 1) \div 2
(* coefficient counts, as dwt_coeff_len *)

(* sum_j h_j ext(i - j), 0-based j *)
ConvAt(e, off, h, sh, i) ==
  ExactDiv(FoldLeftDomain(LAMBDA acc, j : acc + h[j] * e[off + i - j + 1], 0, h), sh)

(* filtering of the extended signal, keeping positions first, first+2, ... *)
FilterDown(x, h, sh, mode) ==
  LET N == Len(x)
      F == Len(h)
      n == DwtLen(N, F, mode)
      first == IF mode = "periodization" THEN F \div 2 ELSE 1
      lo == first - F + 1                  \* smallest position of the extended signal used
      hi == first + 2 * (n - 1)
      e == Tab(hi - lo + 1, LAMBDA p : ExtAt(mode, x, lo + p - 1))
  IN Tab(n, LAMBDA o : ConvAt(e, 1 - lo, h, sh, first + 2 * (o - 1)))

Dwt1(x, bank, mode) == [a |-> FilterDown(x, bank.dl, bank.ds, mode),
                        d |-> FilterDown(x, bank.dh, bank.ds, mode)]

Down(part, x, bank, mode) ==
  FilterDown(x, IF part = "a" THEN bank.dl ELSE bank.dh, bank.ds, mode)

RECURSIVE DownCoef(_, _, _, _, _)
DownCoef(part, x, bank, mode, level) ==
  IF level = 1 THEN Down(part, x, bank, mode)
  ELSE DownCoef(part, Down("a", x, bank, mode), bank, mode, level - 1)

-----------------------------------------------------------------------------
(* Synthesis: upsample by two, convolve, trim.                                *)
UpFull(c, g, sh) ==                       \* all 2N + F - 2 values of sum_k c_k g(m - 2k)
  LET N == Len(c)
      F == Len(g)
  IN Tab(2 * N + F - 2, LAMBDA mm :
       LET m == mm - 1
           klo == Max2(0, CeilDiv(m - F + 1, 2))
           khi == Min2(N - 1, m \div 2)
       IN ExactDiv(FoldLeft(LAMBDA acc, k : acc + c[k] * g[m - 2 * (k - 1) + 1], 0,
                            [z \in 1..(khi - klo + 1) |-> klo + z]), sh))

IdwtLen(N, F, mode) == IF mode = "periodization" THEN 2 * N ELSE 2 * N - F + 2

(* circular synthesis: position m of the full convolution is delivered at     *)
(* (m - (F/2 - 1)) mod 2N                                                       *)
UpBranch(c, g, sh, mode) ==
  LET N == Len(c)
      F == Len(g)
      full == UpFull(c, g, sh)
      L == 2 * N
  IN IF mode = "periodization"
     THEN Tab(L, LAMBDA n :
            LET m0 == (n - 1 + F \div 2 - 1) % L
                cnt == IF m0 >= Len(full) THEN 0 ELSE (Len(full) - 1 - m0) \div L + 1
            IN FoldLeft(LAMBDA acc, t : acc + full[m0 + (t - 1) * L + 1], 0, [t \in 1..cnt |-> t]))
     ELSE Slice(full, F - 2, 2 * N)

Idwt1(ca, cd, bank, mode) ==
  AddSeq(UpBranch(ca, bank.rl, bank.rs, mode), UpBranch(cd, bank.rh, bank.rs, mode))

RECURSIVE UpCoefFull(_, _, _, _)
UpCoefFull(part, c, bank, level) ==
  LET one == UpFull(c, IF part = "a" THEN bank.rl ELSE bank.rh, bank.rs)
  IN IF level = 1 THEN one ELSE UpCoefFull("a", one, bank, level - 1)

(* take central samples; surplus on the left is the floor of half the excess  *)
CentralPart(s, take) ==
  IF take = 0 \/ take >= Len(s) THEN s
  ELSE LET left == (Len(s) - take) \div 2 IN Slice(s, left, left + take)

UpCoef(part, c, bank, level, take) == CentralPart(UpCoefFull(part, c, bank, level), take)
=============================================================================
