-------------------------------- MODULE Forest --------------------------------
(* Several wavelet packet trees: copies of a tree, taken from any of its nodes at any point  *)
(* of its history, are trees of their own with the same nodes, data, sizes and levels.          *)
EXTENDS Packet

GoneTree == [gone |-> TRUE]
Dead(T) == Has(T, "gone")
Poke(T, p) == [T EXCEPT !.N[p].v = [s |-> @.s, d |-> Map(LAMBDA x : -x, @.d)]]
ApplyF(F, st) ==
  CASE st.op = "dup" -> [ok |-> TRUE, f |-> Append(F, F[st.tree]), out |-> << >>]
    [] st.op = "drop" -> [ok |-> TRUE, f |-> [F EXCEPT ![st.tree] = GoneTree], out |-> << >>]
    [] st.op = "poke" -> [ok |-> TRUE, f |-> [F EXCEPT ![st.tree] = Poke(F[st.tree], st.base)], out |-> << >>]   \* data changed in place
    [] OTHER -> LET A == Apply(F[st.tree], st) IN
                IF A.ok THEN [ok |-> TRUE, f |-> [F EXCEPT ![st.tree] = A.t], out |-> A.out] ELSE [ok |-> FALSE]
=============================================================================
