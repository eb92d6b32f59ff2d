------------------------------ MODULE MC_Layout -------------------------------
(* Every way to lay out a small array: the view operations are applied one by one in     *)
(* any order and lead to the same view; views stay inside their block, name each cell       *)
(* once (unless an axis is repeated), and reading back what was stored gives the values       *)
(* while the surrounding cells are untouched.  Each finished plan is printed for replay.       *)
EXTENDS Layout, Json
CONSTANTS MaxRank, MaxN, Dev
VARIABLES shape, plan, item, view, todo
vars == << shape, plan, item, view, todo >>

Items == << "native", "swapped", "odd", "ro", "sub" >>
Kinds == << "plain", "off", "head", "tail", "step2", "step3", "neg", "negoff", "negstep", "rep" >>
IsPerm(p) == \A i, j \in DOMAIN p : p[i] = p[j] => i = j
Perms(n) == { p \in [1..n -> 1..n] : IsPerm(p) }
Id(n) == [i \in 1..n |-> i]
Devs(p, it) == Cardinality({ i \in DOMAIN p.kinds : p.kinds[i] # "plain" }) + (IF p.perm = Id(Len(p.perm)) THEN 0 ELSE 1) + (IF it = "native" THEN 0 ELSE 1)
Init ==
  /\ \E n \in 1..MaxRank :
       /\ shape \in [1..n -> 0..MaxN]
       /\ plan \in [perm : Perms(n), kinds : [1..n -> RangeOf(Kinds)]]
       /\ todo = (1..n) \cup {0}
  /\ item \in RangeOf(Items)
  /\ Devs(plan, item) <= Dev
  /\ view = Block(StoredExt(shape, plan))
\* 0 stands for putting the axes into their order
Pos(i) == IF 0 \in todo THEN PosOf(plan.perm, i) ELSE i
Do(i) ==
  /\ i \in todo
  /\ todo' = todo \ {i}
  /\ view' = IF i = 0 THEN Moved(view, [k \in DOMAIN shape |-> PosOf(plan.perm, k)])
             ELSE Cut(view, Pos(i), Start(plan.kinds[i], shape[i]), Geo[plan.kinds[i]][2], shape[i])
  /\ UNCHANGED << shape, plan, item >>
Next == \E i \in 0..Len(shape) : Do(i)
Spec == Init /\ [][Next]_vars

Done == todo = {}
N == Cells(shape, plan)
Confluent == Done => view = ViewOf(shape, plan)
InBounds == Done => \A k \in 1..Prod(shape) : Addr(view, k) \in 0..(N - 1)
Injective == (Done /\ ~ Overlaps(plan)) => Cardinality(RangeOf(Addrs(view))) = Prod(shape)
Mem0 == Tab(N, LAMBDA c : -c)
Data == Tab(Prod(shape), LAMBDA k : 100 + k)
RoundTrip ==
  Done =>
    LET m == Store(Mem0, view, Data)
        a == RangeOf(Addrs(view))
    IN /\ Overlaps(plan) \/ Load(m, view) = Data
       /\ Load(m, view) = Load(Store(m, view, Load(m, view)), view)
       /\ \A c \in 1..N : (c - 1) \in a \/ m[c] = -c
Emit == (Done /\ \A i \in DOMAIN shape : shape[i] = MaxN) => PrintT("LAY " \o ToJson([perm |-> plan.perm, kinds |-> plan.kinds, item |-> item]))
=============================================================================
