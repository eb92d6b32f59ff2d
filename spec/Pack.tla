--------------------------------- MODULE Pack --------------------------------
(* Coefficient containers: one array with one rectangular block per subband,    *)
(* one vector with one contiguous run per subband, and the result object of the  *)
(* fully separable transform.  A coefficient list is <<A, D_L, ..., D_1>>, D_j a  *)
(* function from subband names to arrays (as in Multi).                           *)
EXTENDS Swt

AxisIndex(axes, a) ==                  \* position of array axis a (0-based) among the transformed axes; 0 if not
  LET ts == {t \in DOMAIN axes : axes[t] = a} IN IF ts = {} THEN 0 ELSE CHOOSE t \in ts : TRUE
AllD(n) == KeyStr([i \in 1..n |-> "d"])
RECURSIVE OffAt(_, _, _)
OffAt(cs, n, j) ==                     \* corner of the details of entry j (n transformed axes)
  IF j = 2 THEN cs[1].s
  ELSE LET o == OffAt(cs, n, j - 1)  s == cs[j - 1][AllD(n)].s IN Tab(Len(o), LAMBDA a : o[a] + s[a])

(* [lo, hi) per axis of subband k of entry j *)
Rect(cs, axes, j, k) ==
  LET n == Len(axes)
      key == KeyOf(n, k)
      off == OffAt(cs, n, j)
      s == cs[j][k].s
  IN Tab(Len(s), LAMBDA a :
       LET t == AxisIndex(axes, a - 1)
       IN IF t # 0 /\ key[t] = "d" THEN << off[a], off[a] + s[a] >> ELSE << 0, s[a] >>)
RectA(cs) == Tab(Rank(cs[1]), LAMBDA a : << 0, cs[1].s[a] >>)

PackSlices(cs, axes) ==
  Tab(Len(cs), LAMBDA j : IF j = 1 THEN RectA(cs) ELSE TLCEval([k \in DOMAIN cs[j] |-> Rect(cs, axes, j, k)]))
PackShape(cs, axes) ==
  IF Len(cs) = 1 THEN cs[1].s
  ELSE LET n == Len(axes)  L == Len(cs)
           o == OffAt(cs, n, L)  s == cs[L][AllD(n)].s
       IN Tab(Len(o), LAMBDA a : IF AxisIndex(axes, a - 1) = 0 THEN cs[1].s[a] ELSE o[a] + s[a])

Inside(c, rect) == \A a \in DOMAIN rect : rect[a][1] <= c[a] /\ c[a] < rect[a][2]
Blocks(cs, axes) ==                    \* every block: its rectangle and its contents
  << << RectA(cs), cs[1] >> >> \o
  FlattenSeq(Tab(Len(cs) - 1, LAMBDA j :
     LET ks == SetToSeq(DOMAIN cs[j + 1]) IN Tab(Len(ks), LAMBDA i : << Rect(cs, axes, j + 1, ks[i]), cs[j + 1][ks[i]] >>)))
BlocksSize(bs) == Sum(Tab(Len(bs), LAMBDA i : Size(bs[i][2].s)))
Tight(cs, axes) == Size(PackShape(cs, axes)) = BlocksSize(Blocks(cs, axes))
PackArr(cs, axes, pad) ==
  IF Len(cs) = 1 THEN cs[1]
  ELSE
  LET shp == PackShape(cs, axes)
      bs == Blocks(cs, axes)
  IN [s |-> shp,
      d |-> Tab(Size(shp), LAMBDA p :
        LET c == Tab(Len(shp), LAMBDA a : Coord(shp, p - 1, a - 1))
            hit == {i \in DOMAIN bs : Inside(c, bs[i][1])}
        IN IF hit = {} THEN pad
           ELSE LET b == bs[CHOOSE i \in hit : TRUE]
                IN b[2].d[Offset(b[2].s, Tab(Len(shp), LAMBDA a : c[a] - b[1][a][1])) + 1])]
\* reading a list back out of any array through the slices
UnpackArr(A, sl) ==
  LET Rd(rect) == Block(A, Map(LAMBDA q : q[1], rect), Map(LAMBDA q : q[2], rect))
  IN Tab(Len(sl), LAMBDA j : IF j = 1 THEN Rd(sl[1]) ELSE TLCEval([k \in DOMAIN sl[j] |-> Rd(sl[j][k])]))

-----------------------------------------------------------------------------
(* one vector: approximation first, then per entry the subbands in name order *)
SortedKeys(n) ==                       \* "a" before "d", first letter most significant
  LET m == Pow2(n) IN Tab(m, LAMBDA v : KeyStr([i \in 1..n |-> IF ((v - 1) \div Pow2(n - i)) % 2 = 0 THEN "a" ELSE "d"]))
PresentKeys(D, n) == SelectSeq(SortedKeys(n), LAMBDA k : k \in DOMAIN D)
KeysOfRec(D) == PresentKeys(D, CHOOSE n \in 1..5 : \E k \in DOMAIN D : k \in Keys(n))
EntryVec(D) == FlattenSeq(Tab(Len(KeysOfRec(D)), LAMBDA i : D[KeysOfRec(D)[i]].d))
RavelVec(cs) == FlattenSeq(Tab(Len(cs), LAMBDA j : IF j = 1 THEN cs[1].d ELSE EntryVec(cs[j])))
EntryLen(cs, j) == IF j = 1 THEN Size(cs[1].s)
                   ELSE Sum(Tab(Len(KeysOfRec(cs[j])), LAMBDA i : Size(cs[j][KeysOfRec(cs[j])[i]].s)))
RavelSlices(cs) ==
  LET base == Tab(Len(cs), LAMBDA j : Sum(Tab(j - 1, LAMBDA z : EntryLen(cs, z))))
  IN Tab(Len(cs), LAMBDA j :
      IF j = 1 THEN << 0, Size(cs[1].s) >>
      ELSE LET ks == KeysOfRec(cs[j])
               at == Tab(Len(ks) + 1, LAMBDA i : base[j] + Sum(Tab(i - 1, LAMBDA z : Size(cs[j][ks[z]].s))))
           IN TLCEval([k \in DOMAIN cs[j] |->
                LET i == CHOOSE z \in DOMAIN ks : ks[z] = k IN << at[i], at[i + 1] >>]))
ListShapes(cs) == Tab(Len(cs), LAMBDA j : IF j = 1 THEN cs[1].s ELSE TLCEval([k \in DOMAIN cs[j] |-> cs[j][k].s]))
UnravelVec(x, sl, shp) ==
  LET Rd(q, s) == [s |-> s, d |-> Slice(x, q[1], q[2])]
  IN Tab(Len(sl), LAMBDA j : IF j = 1 THEN Rd(sl[1], shp[1]) ELSE TLCEval([k \in DOMAIN sl[j] |-> Rd(sl[j][k], shp[j][k])]))

-----------------------------------------------------------------------------
(* the fully separable result object: array + block lengths per transformed axis *)
CumLo(L, k) == Sum(SubSeq(L, 1, k - 1))
FsSlices(lens) == Tab(Len(lens), LAMBDA t : Tab(Len(lens[t]), LAMBDA k : << CumLo(lens[t], k), CumLo(lens[t], k + 1) >>))
FsRect(shape, axes, lens, key) ==
  Tab(Len(shape), LAMBDA a :
    LET t == AxisIndex(axes, a - 1)
    IN IF t = 0 THEN << 0, shape[a] >> ELSE FsSlices(lens)[t][key[t] + 1])
FsGet(A, axes, lens, key) ==
  LET r == FsRect(A.s, axes, lens, key) IN Block(A, Map(LAMBDA q : q[1], r), Map(LAMBDA q : q[2], r))
FsPut(A, axes, lens, key, X) ==
  LET r == FsRect(A.s, axes, lens, key)
  IN [A EXCEPT !.d = Tab(Len(A.d), LAMBDA p :
        LET c == Tab(Rank(A), LAMBDA a : Coord(A.s, p - 1, a - 1))
        IN IF Inside(c, r) THEN X.d[Offset(X.s, Tab(Rank(A), LAMBDA a : c[a] - r[a][1])) + 1] ELSE A.d[p])]
FsValidKey(lens, key) == Len(key) = Len(lens) /\ \A t \in DOMAIN key : key[t] >= 0 /\ key[t] < Len(lens[t])
RECURSIVE Lex(_)
Lex(ns) ==                             \* all index tuples below ns, lexicographic
  IF ns = << >> THEN << << >> >>
  ELSE LET rest == Lex(Tail(ns)) IN FlattenSeq(Tab(Head(ns), LAMBDA v : Tab(Len(rest), LAMBDA i : << v - 1 >> \o rest[i])))
FsDetailKeys(lens) == Tail(Lex(Map(LAMBDA L : Len(L), lens)))
FsLevels(r) ==
  Tab(Len(r.axes), LAMBDA t : IF r.levels[t] >= 0 THEN r.levels[t]
      ELSE MaxLevel(r.in.x.s[NormAxis(r.axes[t], Rank(r.in.x)) + 1], FLen(r.banks[t])))

\* the object as a machine: [arr |-> current array, res |-> what each operation delivered]
FsStep(st, axes, lens, op) ==
  LET ok == CASE op.k \in {"get", "set"} -> FsValidKey(lens, op.key) [] OTHER -> TRUE
      key == CASE op.k \in {"get", "set"} -> op.key [] OTHER -> Tab(Len(lens), LAMBDA t : 0)
      rej == [arr |-> st.arr, res |-> Append(st.res, [rejected |-> TRUE])]
  IN IF ~ok THEN rej
     ELSE CASE op.k \in {"get", "getapprox"} -> [arr |-> st.arr, res |-> Append(st.res, FsGet(st.arr, axes, lens, key))]
            [] op.k \in {"set", "setapprox"} ->
                 IF op.x.s # FsGet(st.arr, axes, lens, key).s THEN rej
                 ELSE [arr |-> FsPut(st.arr, axes, lens, key, op.x), res |-> Append(st.res, [done |-> TRUE])]
            [] op.k = "setcoeffs" ->
                 IF op.x.s # st.arr.s THEN rej ELSE [arr |-> op.x, res |-> Append(st.res, [done |-> TRUE])]
            [] op.k = "coeffs" -> [arr |-> st.arr, res |-> Append(st.res, st.arr)]
FsRun(A, axes, lens, steps) ==
  FoldLeft(LAMBDA st, op : FsStep(st, axes, lens, op), [arr |-> A, res |-> << >>], steps)

-----------------------------------------------------------------------------
Iota(n) == Tab(n, LAMBDA i : i)
PackValue(r) ==
  CASE r.op = "pack" ->
         LET cs == r.in.c
             ax == NormAxes(r.axes, Rank(cs[1]))
             sl == PackSlices(cs, ax)
         IN IF r.nopad /\ Len(cs) > 1 /\ ~Tight(cs, ax) THEN [refused |-> TRUE]
            ELSE [arr |-> PackArr(cs, ax, r.padding), sl |-> sl, back |-> cs,
                  other |-> UnpackArr([s |-> PackShape(cs, ax), d |-> Iota(Size(PackShape(cs, ax)))], sl)]
    [] r.op = "ravel" ->
         LET cs == r.in.c
             sl == RavelSlices(cs)
         IN [vec |-> Vec(RavelVec(cs)), sl |-> sl, shp |-> ListShapes(cs), back |-> cs,
             other |-> UnravelVec(Iota(Len(RavelVec(cs))), sl, ListShapes(cs))]
    [] r.op = "shapes" ->
         LET ax == NormAxes(r.axes, Len(r.shape))
             lv == IF r.level >= 0 THEN r.level
                   ELSE MinOver(Tab(Len(ax), LAMBDA t : MaxLevel(r.shape[ax[t] + 1], r.lens[t])))
             sh == DecShapes(r.shape, r.lens, r.modes, ax, lv)
         IN [shapes |-> sh, size |-> DecSize(sh), real |-> sh, rsize |-> DecSize(sh)]
    [] r.op = "fswavedecn" ->
         LET A == r.in.x
             ax == NormAxes(r.axes, Rank(A))
             f == FsDec(A, r.banks, r.modes, ax, FsLevels(r), 1)
             ks == Lex(Map(LAMBDA L : Len(L), f[2]))
         IN [arr |-> f[1], sl |-> FsSlices(f[2]), levels |-> Map(LAMBDA L : Len(L) - 1, f[2]),
             keys |-> FsDetailKeys(f[2]), approx |-> FsGet(f[1], ax, f[2], ks[1]),
             blocks |-> Tab(Len(ks), LAMBDA i : FsGet(f[1], ax, f[2], ks[i])),
             modes |-> r.modes, axes |-> ax, nd |-> << Rank(A), Len(ax) >>, same |-> TRUE]
    [] r.op = "fswaverecn" ->
         LET ax == NormAxes(r.axes, Rank(r.in.c)) IN [y |-> FsRec(r.in.c, r.lens, r.banks, r.modes, ax, 1)]
    [] r.op = "fsobj" ->
         LET ax == NormAxes(r.axes, Rank(r.in.c))
             st == FsRun(r.in.c, ax, r.lens, r.in.steps)
         IN [res |-> st.res, arr |-> st.arr]
=============================================================================
