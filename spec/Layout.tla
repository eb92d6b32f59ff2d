------------------------------- MODULE Layout --------------------------------
(* How an array lies in memory.  Memory is a sequence of cells; a view is an offset     *)
(* with a shape and strides (in cells).  A plan says how a view of a given shape is       *)
(* obtained from a freshly allocated block: the order in which its axes are stored and,    *)
(* per axis, whether it is cut out of a longer one, strided, reversed or repeated.          *)
(* The values of a view are all that a call may depend on, and all of the memory, inside      *)
(* and around the view, is what a call has to leave alone.                                     *)
EXTENDS Util

\* cells skipped before the first element, step, cells after the last one
Geo == [plain |-> << 0, 1, 0 >>, off |-> << 2, 1, 3 >>, head |-> << 0, 1, 4 >>, tail |-> << 5, 1, 0 >>, step2 |-> << 1, 2, 1 >>, step3 |-> << 0, 3, 0 >>,
        neg |-> << 0, -1, 0 >>, negoff |-> << 2, -1, 1 >>, negstep |-> << 1, -2, 2 >>, rep |-> << 0, 0, 0 >>]
AxisKinds == DOMAIN Geo

Extent(kind, n) ==
  LET g == Geo[kind]
  IN IF kind = "rep" THEN 1 ELSE g[1] + (IF n = 0 THEN 0 ELSE Abs(g[2]) * (n - 1) + 1) + g[3]
Start(kind, n) ==
  LET g == Geo[kind]
  IN IF g[2] < 0 /\ n > 0 THEN g[1] + Abs(g[2]) * (n - 1) ELSE g[1]

\* contiguous block of the given extents
CStrides(ext) == Tab(Len(ext), LAMBDA i : Prod(SubSeq(ext, i + 1, Len(ext))))
Block(ext) == [off |-> 0, s |-> ext, st |-> CStrides(ext)]
\* axes in another order: axis i of the result is axis p[i] of v
Moved(v, p) == [off |-> v.off, s |-> Tab(Len(p), LAMBDA i : v.s[p[i]]), st |-> Tab(Len(p), LAMBDA i : v.st[p[i]])]
\* every step-th element of axis i, n of them
Cut(v, i, from, step, n) ==
  [off |-> v.off + from * v.st[i], s |-> [v.s EXCEPT ![i] = n], st |-> [v.st EXCEPT ![i] = step * v.st[i]]]

(* plan: perm[t] is the axis stored at position t (slowest first), kinds per axis *)
StoredExt(s, plan) == Tab(Len(s), LAMBDA t : Extent(plan.kinds[plan.perm[t]], s[plan.perm[t]]))
Cells(s, plan) == Prod(StoredExt(s, plan))
PosOf(p, i) == CHOOSE t \in DOMAIN p : p[t] = i
ViewOf(s, plan) ==
  LET ext == StoredExt(s, plan)
      cs == CStrides(ext)
      at(i) == cs[PosOf(plan.perm, i)]
  IN [off |-> Sum(Tab(Len(s), LAMBDA i : Start(plan.kinds[i], s[i]) * at(i))),
      s |-> s,
      st |-> Tab(Len(s), LAMBDA i : Geo[plan.kinds[i]][2] * at(i))]

\* cell of the k-th element (1-based, row-major)
RECURSIVE Addr(_, _)
Addr(v, k) ==
  LET at[i \in 0..Len(v.s)] ==
        IF i = 0 THEN << v.off, k - 1 >>
        ELSE LET q == at[i - 1]
                 block == Prod(SubSeq(v.s, i + 1, Len(v.s)))
             IN << q[1] + (q[2] \div block) * v.st[i], q[2] % block >>
  IN at[Len(v.s)][1]
Addrs(v) == Tab(Prod(v.s), LAMBDA k : Addr(v, k))
Load(mem, v) == Tab(Prod(v.s), LAMBDA k : mem[Addr(v, k) + 1])
Store(mem, v, d) ==
  LET a == Addrs(v)
  IN Tab(Len(mem), LAMBDA c : IF \E k \in DOMAIN a : a[k] = c - 1 THEN d[CHOOSE k \in DOMAIN a : a[k] = c - 1 /\ \A j \in DOMAIN a : a[j] = c - 1 => j <= k] ELSE mem[c])
Overlaps(plan) == \E i \in DOMAIN plan.kinds : plan.kinds[i] = "rep"

(* what a recorded argument has to look like *)
ViewBad(q) ==
  LET v == ViewOf(q.s, q.plan)
      w == [off |-> v.off + q.shift, s |-> v.s, st |-> v.st]
  IN (IF Len(q.mem) = Cells(q.s, q.plan) + q.room /\ (Prod(q.s) = 0 \/ (q.off = w.off /\ \A i \in DOMAIN q.s : q.s[i] <= 1 \/ q.st[i] = w.st[i])) THEN {} ELSE {"layout"})
     \cup (IF Load(q.mem, w) = q.d THEN {} ELSE {"layout"})
     \cup (IF q.after = q.mem THEN {} ELSE {"mutated"})
=============================================================================
