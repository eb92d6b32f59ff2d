------------------------------- MODULE Padding -------------------------------
(* Extension of an n-dimensional array by given widths, axis by axis.               *)
EXTENDS Nd, Ext

PadLine(x, mode, b, a) ==
  LET N == Len(x)
      P == IF mode = "periodization" THEN N + (N % 2) ELSE N
  IN Tab(b + P + a, LAMBDA p : ExtAt(mode, x, p - 1 - b))
\* widths: one pair for every axis, or one pair for all of them
PadWidth(widths, ax) == IF Len(widths) = 1 THEN widths[1] ELSE widths[ax + 1]
RECURSIVE PadFrom(_, _, _, _)
PadFrom(A, mode, widths, ax) ==
  IF ax = Rank(A) THEN A
  ELSE LET w == PadWidth(widths, ax)
       IN PadFrom(AlongAxis(LAMBDA v : PadLine(v, mode, w[1], w[2]), A, ax), mode, widths, ax + 1)
PadArr(A, mode, widths) == PadFrom(A, mode, widths, 0)
=============================================================================
