------------------------------- MODULE MC_Packet -------------------------------
(* Exhaustive exploration of short histories on a small tree with a bank that        *)
(* reconstructs perfectly.  Invariants tie stored data to what was written.           *)
EXTENDS Packet, Json, IOUtils

CONSTANTS KindSet, Lens, ModeSet, MaxSteps, Depth
Banks == JsonDeserialize(IOEnv.BANKS)
\* a signal with enough factors of two for a dyadic bank to stay integral
Sig(shape, f) == [s |-> shape, d |-> Tab(Size(shape), LAMBDA i : f * (((i * i + 3 * i) % 7) - 3))]

VARIABLES T,          \* the tree
          orig,       \* the root's data when it was made
          clean,      \* no node was written, deleted without re-creation, or left behind
          dirty,      \* paths whose data the caller wrote
          n
vars == << T, orig, clean, dirty, n >>

PathsUpTo(L) == UNION {[1..k -> Parts(T)] : k \in 0..L}
Starts == {InitTree(k, b, m, IF k = "1" THEN << 0 >> ELSE << 0, 1 >>, Depth,
                    Sig(IF k = "1" THEN << N >> ELSE << N, N >>, 16384)) :
             k \in KindSet, b \in RangeOf(Banks), m \in ModeSet, N \in Lens}

Init == /\ T \in Starts
        /\ orig = T.N[Root].v
        /\ clean = TRUE /\ dirty = {} /\ n = 0

Read(p) == LET A == Apply(T, [op |-> "get", base |-> Root, path |-> p])
          IN A.ok /\ T' = A.t /\ UNCHANGED << clean, dirty >>
Write(p) == LET old == IF p \in DOMAIN T.N THEN T.N[p].v ELSE NoData
              A == Apply(T, [op |-> "set", base |-> Root, path |-> p, v |-> ScaleArr(2, old)])
          IN ~IsNone(old) /\ A.ok /\ T' = A.t /\ clean' = FALSE /\ dirty' = dirty \cup {p}
Del(p) == LET A == Apply(T, [op |-> "del", base |-> Root, path |-> p])
          IN p # Root /\ A.ok /\ T' = A.t /\ clean' = FALSE /\ UNCHANGED dirty
RecU(u) == LET A == Apply(T, [op |-> "rec", base |-> Root, update |-> u])
           IN A.ok /\ T' = A.t /\ UNCHANGED << clean, dirty >>
Level(L) == LET A == Apply(T, [op |-> "level", level |-> L, order |-> "natural", create |-> TRUE])
            IN A.ok /\ T' = A.t /\ UNCHANGED << clean, dirty >>

Next == /\ n < MaxSteps /\ n' = n + 1 /\ UNCHANGED orig
        /\ \/ \E p \in PathsUpTo(Depth) : Read(p) \/ Write(p) \/ Del(p)
           \/ \E u \in BOOLEAN : RecU(u)
           \/ \E L \in 0..Depth : Level(L)
Spec == Init /\ [][Next]_vars

Closed == \A p \in DOMAIN T.N : p = Root \/ SubSeq(p, 1, Len(p) - 1) \in DOMAIN T.N
\* an unedited tree, partial or full, reconstructs the original
Restores == clean => LET R == Rec(T, Root) IN R.ok /\ R.v = orig
\* reading never changes stored data
ReadOnly == [][(clean /\ clean') => \A p \in DOMAIN T.N : p \in DOMAIN T'.N /\ T'.N[p] = T.N[p]]_vars
\* in an unedited tree the data under a path is the transform named by it
RECURSIVE Named(_, _)
Named(A, p) == IF p = << >> THEN A ELSE Named(Bands(T, A)[BandOf(T, p[1])], Tail(p))
PathData == clean => \A p \in DOMAIN T.N : T.N[p].v = Named(orig, p)
\* listings: every node of a level exactly once, in lexicographic and in Gray order
Listing == \A L \in 0..Depth :
   LET W == AtLevel(T, L, TRUE)
       ps == SetToSeq({q \in DOMAIN W.t.N : Len(q) = L})
   IN /\ RangeOf(W.q) = RangeOf(ps) /\ Len(W.q) = Len(ps)
      /\ T.kind = "1" => LET g == ByRank(W.q, Rank1D) IN
            \A i \in 1..(Len(g) - 1) : Len(g) = Pow2(L) => Cardinality({j \in 1..L : g[i][j] # g[i + 1][j]}) = 1
\* leaves partition the plane: with every unedited tree they carry all the information
LeafPaths == LET W == Leaves(T, Root, FALSE) IN
   \A i, j \in DOMAIN W.q : i # j => ~IsPrefix1(W.q[i], W.q[j])
=============================================================================
