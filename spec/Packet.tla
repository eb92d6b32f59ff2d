-------------------------------- MODULE Packet --------------------------------
(* Wavelet packet trees as a state machine.                                       *)
(* A tree T is a record                                                            *)
(*   kind   "1", "2" or "n"        bank, mode, axes (0-based)     maxl  deepest level *)
(*   N      function: path (sequence of part names) -> [v |-> array or Absent,       *)
(*                                                      s |-> known size or Unknown]  *)
(* Apply(T, step) gives the next tree and what the caller observes.                  *)
EXTENDS Mra

NoData == [s |-> << >>, d |-> << >>]
Unknown == << -1 >>
IsNone(A) == A.s = << >> /\ A.d = << >>
Root == << >>

(* part names in the order in which walks visit them, and the subband each names *)
PartSeq(T) ==
  CASE T.kind = "1" -> << "a", "d" >>
    [] T.kind = "2" -> << "a", "h", "v", "d" >>
    [] T.kind = "n" -> LET n == Len(T.axes) IN
         Tab(Pow2(n), LAMBDA k : KeyStr(Tab(n, LAMBDA i :
            IF ((k - 1) \div Pow2(n - i)) % 2 = 0 THEN "a" ELSE "d")))
Subband2 == [a |-> "aa", h |-> "da", v |-> "ad", d |-> "dd"]
BandOf(T, part) == IF T.kind = "2" THEN Subband2[part] ELSE part
Parts(T) == RangeOf(PartSeq(T))

Rep(T, x) == Tab(Len(T.axes), LAMBDA i : x)
Bands(T, A) == Dwtn(A, Rep(T, T.bank), Rep(T, T.mode), T.axes)

Exists(T, p) == p \in DOMAIN T.N
ValueAt(T, p) == T.N[p].v
Children(T, p) == {c \in Parts(T) : Exists(T, Append(p, c))}
Node(v) == [v |-> v, s |-> IF IsNone(v) THEN Unknown ELSE v.s]

IsPrefix1(p, q) == Len(p) <= Len(q) /\ SubSeq(q, 1, Len(p)) = p
Put(T, p, rec) == [T EXCEPT !.N = [q \in DOMAIN T.N \cup {p} |-> IF q = p THEN rec ELSE T.N[q]]]
Without(T, p) == [T EXCEPT !.N = [q \in {z \in DOMAIN T.N : ~IsPrefix1(p, z)} |-> T.N[q]]]
RECURSIVE PutAll(_, _, _, _)
PutAll(T, p, parts, vals) ==      \* replaces whole subtrees
  IF parts = << >> THEN T
  ELSE PutAll(Put(Without(T, Append(p, parts[1])), Append(p, parts[1]), Node(vals[parts[1]])),
              p, Tail(parts), vals)

ChildValues(T, p) ==
  IF IsNone(ValueAt(T, p)) THEN [c \in Parts(T) |-> NoData]
  ELSE LET B == Bands(T, ValueAt(T, p)) IN [c \in Parts(T) |-> B[BandOf(T, c)]]

(* missing subnodes come from the node's current data; those present stay *)
Complete(T, p) ==
  TLCEval(PutAll(T, p, SelectSeq(PartSeq(T), LAMBDA c : ~Exists(T, Append(p, c))), ChildValues(T, p)))
(* an explicit request recomputes all of them, if there is data *)
Decompose(T, p) ==
  IF IsNone(ValueAt(T, p)) THEN Complete(T, p)
  ELSE TLCEval(PutAll(T, p, PartSeq(T), ChildValues(T, p)))

Fail == [ok |-> FALSE]
(* descend from p along rest, creating nodes on the way *)
RECURSIVE Descend(_, _, _)
Descend(T, p, rest) ==
  IF rest = << >> THEN [ok |-> TRUE, t |-> T, p |-> p]
  ELSE LET c == Append(p, rest[1]) IN
       IF rest[1] \notin Parts(T) THEN Fail
       ELSE IF Exists(T, c) THEN Descend(T, c, Tail(rest))
       ELSE IF IsNone(ValueAt(T, p)) \/ Len(p) >= T.maxl THEN Fail
       ELSE Descend(Complete(T, p), c, Tail(rest))

RECURSIVE Store(_, _, _, _)
Store(T, p, rest, v) ==
  IF rest = << >> THEN [ok |-> TRUE, t |-> Put(T, p, Node(v))]
  ELSE LET c == Append(p, rest[1]) IN
       IF rest[1] \notin Parts(T) THEN Fail
       ELSE Store(IF Exists(T, c) THEN T ELSE Put(T, c, Node(NoData)), c, Tail(rest), v)

(* inverse transform of the leaves below p; ok = FALSE when sizes do not fit or nothing is there *)
Fit(A, s) == IF s = Unknown \/ A.s = s THEN A ELSE TrimTo(A, Tab(Len(s), LAMBDA a : Min2(s[a], A.s[a])))
\* written data may be of any size: with fewer coefficients than half a filter there is nothing to synthesise
TooShort(T, s) == T.mode # "periodization" /\ \E i \in DOMAIN T.axes : 2 * s[T.axes[i] + 1] < Len(T.bank.rl)
RECURSIVE Rec(_, _)
Rec(T, p) ==
  IF Children(T, p) = {} THEN [ok |-> TRUE, v |-> ValueAt(T, p)]
  ELSE LET R == TLCEval([c \in Children(T, p) |-> Rec(T, Append(p, c))])
           G == {c \in DOMAIN R : R[c].ok /\ ~IsNone(R[c].v)}
       IN IF (\E c \in DOMAIN R : ~R[c].ok) \/ G = {} THEN Fail
          ELSE IF \E c, e \in G : R[c].v.s # R[e].v.s THEN Fail
          ELSE IF \E c \in G : TooShort(T, R[c].v.s) THEN Fail
          ELSE LET C == [b \in {BandOf(T, c) : c \in G} |-> R[CHOOSE c \in G : BandOf(T, c) = b].v]
               IN [ok |-> TRUE, v |-> Fit(Idwtn(C, Rep(T, T.bank), Rep(T, T.mode), T.axes), T.N[p].s)]

(* visits: pre-order or post-order; descending stops below level stop; with create,   *)
(* missing subnodes of nodes with data are created when they are reached               *)
RECURSIVE Walk(_, _, _, _, _)
RECURSIVE WalkParts(_, _, _, _, _, _)
Walk(T, p, stop, create, post) ==
  LET W == IF Len(p) < stop /\ Len(p) < T.maxl
           THEN WalkParts(T, p, stop, create, post, PartSeq(T))
           ELSE [t |-> T, q |-> << >>]
  IN [t |-> W.t, q |-> IF post THEN Append(W.q, p) ELSE << p >> \o W.q]
WalkParts(T, p, stop, create, post, ps) ==
  IF ps = << >> THEN [t |-> T, q |-> << >>]
  ELSE LET c == Append(p, ps[1])
           T1 == IF ~Exists(T, c) /\ create /\ ~IsNone(ValueAt(T, p)) THEN Complete(T, p) ELSE T
       IN IF ~Exists(T1, c) THEN WalkParts(T1, p, stop, create, post, Tail(ps))
          ELSE LET W == Walk(T1, c, stop, create, post)
                   V == WalkParts(W.t, p, stop, create, post, Tail(ps))
               IN [t |-> V.t, q |-> W.q \o V.q]

(* leaves: nodes at the deepest level that hold data and, unless everything is to be   *)
(* decomposed, nodes without subnodes                                                   *)
Leaves(T, p, create) ==
  LET W == Walk(T, p, T.maxl, create, FALSE)
      IsLeaf(q) == \/ Len(q) = T.maxl /\ ~IsNone(ValueAt(W.t, q))
                   \/ ~create /\ Children(W.t, q) = {}
  IN [t |-> W.t, q |-> SelectSeq(W.q, IsLeaf)]

(* frequency order: the rank of a path is the inverse Gray code of its a/d letters      *)
RECURSIVE GrayRank(_, _)
GrayRank(bits, acc) ==     \* acc = <<value so far, last bit>>
  IF bits = << >> THEN acc[1]
  ELSE LET b == (bits[1] + acc[2]) % 2 IN GrayRank(Tail(bits), << 2 * acc[1] + b, b >>)
Bits(p, hi) == Tab(Len(p), LAMBDA i : IF p[i] \in hi THEN 1 ELSE 0)
ByRank(ps, Rank1(_)) == SortSeq(ps, LAMBDA x, y : Rank1(x) < Rank1(y))
Rank1D(p) == GrayRank(Bits(p, {"d"}), << 0, 0 >>)
RowRank(p) == GrayRank(Bits(p, {"h", "d"}), << 0, 0 >>)    \* along the first axis
ColRank(p) == GrayRank(Bits(p, {"v", "d"}), << 0, 0 >>)    \* along the second axis

AtLevel(T, level, create) ==
  LET W == Walk(T, Root, level, create, FALSE)
  IN [t |-> W.t, q |-> SelectSeq(W.q, LAMBDA p : Len(p) = level)]
Grid(q) ==
  LET rows == SetToSortSeq({RowRank(q[i]) : i \in DOMAIN q}, <)
  IN Tab(Len(rows), LAMBDA r : ByRank(SelectSeq(q, LAMBDA p : RowRank(p) = rows[r]), ColRank))

(* one call.  st.op, st.base (path of the node it is made on), st.path, ...            *)
Apply(T, st) ==
  CASE st.op = "get" ->
         IF Len(st.path) > T.maxl THEN [ok |-> FALSE]
         ELSE LET D == Descend(T, st.base, st.path)
              IN IF ~D.ok THEN Fail ELSE [ok |-> TRUE, t |-> D.t, out |-> [v |-> ValueAt(D.t, D.p), p |-> D.p, maxl |-> T.maxl]]
    [] st.op = "set" ->
         IF Len(st.base) + Len(st.path) > T.maxl THEN Fail
         ELSE LET D == Store(T, st.base, st.path, st.v)
              IN IF ~D.ok THEN Fail ELSE [ok |-> TRUE, t |-> D.t, out |-> << >>]
    [] st.op = "del" ->
         IF Len(st.path) > T.maxl THEN Fail
         ELSE LET D == Descend(T, st.base, st.path)
              IN IF ~D.ok THEN Fail
                 ELSE [ok |-> TRUE, t |-> IF D.p = Root THEN D.t ELSE Without(D.t, D.p), out |-> << >>]
    [] st.op = "decompose" ->
         IF Len(st.base) >= T.maxl THEN Fail
         ELSE LET D == Decompose(T, st.base)
              IN [ok |-> TRUE, t |-> D, out |-> Tab(Len(PartSeq(T)), LAMBDA i : ValueAt(D, Append(st.base, PartSeq(T)[i])))]
    [] st.op = "sub" ->       \* get_subnode
         IF st.part \notin Parts(T) THEN Fail
         ELSE LET c == Append(st.base, st.part)
              IN IF Exists(T, c) THEN [ok |-> TRUE, t |-> T, out |-> [p |-> c, none |-> FALSE]]
                 ELSE IF ~st.create \/ IsNone(ValueAt(T, st.base)) THEN [ok |-> TRUE, t |-> T, out |-> [p |-> << >>, none |-> TRUE]]
                 ELSE IF Len(st.base) >= T.maxl THEN Fail
                 ELSE [ok |-> TRUE, t |-> Complete(T, st.base), out |-> [p |-> c, none |-> FALSE]]
    [] st.op = "rec" ->
         LET R == Rec(T, st.base)
             has == Children(T, st.base) # {}
         IN IF ~R.ok THEN Fail
            ELSE [ok |-> TRUE,
                  t |-> IF st.update /\ has THEN [T EXCEPT !.N[st.base].v = R.v] ELSE T,
                  out |-> R.v]
    [] st.op = "level" ->
         IF st.level > T.maxl THEN Fail
         ELSE LET W == AtLevel(T, st.level, st.create)
              IN [ok |-> TRUE, t |-> W.t,
                  out |-> IF st.order = "natural" THEN W.q
                          ELSE IF T.kind = "1" THEN ByRank(W.q, Rank1D) ELSE Grid(W.q)]
    [] st.op = "walk" ->
         LET W == Walk(T, st.base, st.stop, st.create, st.post)
         IN [ok |-> TRUE, t |-> W.t, out |-> W.q]
    [] st.op = "leaves" ->
         LET W == Leaves(T, st.base, st.create)
         IN [ok |-> TRUE, t |-> W.t, out |-> W.q]

(* pre-order with an unconditional function is Walk with stop = maxl *)
Dump(T) == {<< p, ValueAt(T, p) >> : p \in DOMAIN T.N}

InitTree(kind, bank, mode, axes, maxl, v) ==
  [kind |-> kind, bank |-> bank, mode |-> mode, axes |-> axes, maxl |-> maxl,
   N |-> (Root :> Node(v))]
=============================================================================
