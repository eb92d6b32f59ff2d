------------------------------- MODULE Custom -------------------------------
(* A user's filters, banks and wavelets as cells of a heap.  Lists and banks are      *)
(* mutable and shared by reference; a wavelet takes the values at its creation and     *)
(* keeps them; whatever it reports is a new list.                                      *)
(*   [k |-> "list", v |-> integers]      [k |-> "bank", r |-> << four list cells >>]   *)
(*   [k |-> "obj", b |-> bank cell]      [k |-> "w", f |-> << four filters >>, o, b]   *)
(* Step: [op, a |-> cells, v |-> integers, s |-> text].                                *)
EXTENDS Dwt

L(v) == [k |-> "list", v |-> v]
Evened(f) == IF Len(f) % 2 = 1 THEN Append(f, 0) ELSE f
Exchange(f) == << RevSeq(f[3]), RevSeq(f[4]), RevSeq(f[1]), RevSeq(f[2]) >>
Alternate(f) == Tab(Len(f), LAMBDA i : IF i % 2 = 0 THEN -f[i] ELSE f[i])
Qmf(f) == Alternate(RevSeq(f))

\* the four filters a constructor argument stands for
BankOf(H, c) ==
  LET x == H[c] IN
  CASE x.k = "bank" -> Map(LAMBDA i : H[i].v, x.r)
    [] x.k = "obj" -> Map(LAMBDA i : H[i].v, H[x.b].r)
    [] x.k = "w" -> x.f
    [] OTHER -> << >>
Usable(fs) == Len(fs) = 4 /\ \A i \in 1..4 : Len(fs[i]) > 0 /\ Len(fs[i]) = Len(fs[1])

Mem(H, new, out) == [ok |-> TRUE, h |-> H \o new, out |-> out]
Bad(H) == [ok |-> FALSE, h |-> H, out |-> 0]
Wcell(fs) == [k |-> "w", f |-> Map(Evened, fs), o |-> FALSE, b |-> FALSE]
Ana1(x, h, mode) == FilterDown(x, h, 0, mode)
Syn1(c, g, mode) == UpBranch(c, g, 0, mode)
Apply(H, st) ==
  LET a == st.a
      c1 == IF a = << >> THEN [k |-> "none"] ELSE H[a[1]]
  IN
  CASE st.op = "list" -> Mem(H, << L(st.v) >>, 0)
    [] st.op = "bank" -> Mem(H, << [k |-> "bank", r |-> a] >>, 0)
    [] st.op = "obj" -> Mem(H, << [k |-> "obj", b |-> a[1]] >>, 0)
    [] st.op = "wavelet" -> LET fs == BankOf(H, a[1]) IN IF Usable(fs) THEN Mem(H, << Wcell(fs) >>, 0) ELSE Bad(H)
    [] st.op = "poke" -> Mem([H EXCEPT ![a[1]].v[st.v[1]] = st.v[2]], << >>, 0)
    [] st.op = "grow" -> Mem([H EXCEPT ![a[1]].v = Append(@, st.v[1])], << >>, 0)
    [] st.op = "swapin" -> Mem([H EXCEPT ![a[1]].r[st.v[1]] = a[2]], << >>, 0)
    [] st.op = "read" -> Mem(H, << L(c1.f[st.v[1]]) >>, 0)
    [] st.op = "readbank" ->          \* four new lists and the tuple of them
         LET n == Len(H) IN Mem(H, Map(L, c1.f) \o << [k |-> "bank", r |-> << n + 1, n + 2, n + 3, n + 4 >>] >>, 0)
    [] st.op = "inverse" ->
         LET n == Len(H) IN Mem(H, Map(L, Exchange(c1.f)) \o << [k |-> "bank", r |-> << n + 1, n + 2, n + 3, n + 4 >>] >>, 0)
    [] st.op = "flag" -> Mem([H EXCEPT ![a[1]].o = IF st.s = "orthogonal" THEN st.v[1] # 0 ELSE @,
                                       ![a[1]].b = IF st.s = "biorthogonal" THEN st.v[1] # 0 ELSE @], << >>, 0)
    [] st.op = "qmf" -> Mem(H, << L(Qmf(c1.v)) >>, 0)
    [] st.op = "lens" -> Mem(H, << >>, << Len(c1.f[1]), Len(c1.f[3]), Len(c1.f[1]) >>)
    [] st.op = "dwt" -> Mem(H, << >>, << Ana1(st.v, c1.f[1], st.s), Ana1(st.v, c1.f[2], st.s) >>)
    [] st.op = "idwt" -> Mem(H, << >>, Syn1(st.v, c1.f[3], st.s))

Dump(H) == Map(LAMBDA c : CASE c.k = "list" -> << c.v >> [] c.k = "w" -> c.f \o << << IF c.o THEN 1 ELSE 0, IF c.b THEN 1 ELSE 0 >> >>
                            [] OTHER -> << >>, H)
=============================================================================
