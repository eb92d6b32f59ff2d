------------------------------ MODULE MC_Custom ------------------------------
(* All short histories over a user's lists, banks and wavelets; the histories are     *)
(* printed and replayed into the code.                                                *)
EXTENDS Custom, Json

CONSTANT MaxSteps, Odd
VARIABLES H, hist
vars == << H, hist >>

V(i) == IF Odd THEN << i, 2 * i + 1, -i >> ELSE << i, 3 - i >>
S(op, a, v, s) == [op |-> op, a |-> a, v |-> v, s |-> s]
Of(k) == {c \in DOMAIN H : H[c].k = k}
LastOf(k) == IF Of(k) = {} THEN {} ELSE {CHOOSE c \in Of(k) : \A d \in Of(k) : d <= c}
FirstOf(k) == IF Of(k) = {} THEN {} ELSE {CHOOSE c \in Of(k) : \A d \in Of(k) : d >= c}
Ends(k) == LastOf(k) \cup FirstOf(k)
Steps ==
  {S("wavelet", << c >>, << >>, "w") : c \in Ends("bank") \cup LastOf("w") \cup LastOf("obj")}
  \cup {S("poke", << c >>, << 1, 77 >>, "") : c \in Ends("list")}
  \cup {S("swapin", << c, 1 >>, << 3 >>, "") : c \in FirstOf("bank")}
  \cup {S("obj", << c >>, << >>, "filter_bank") : c \in IF Of("obj") = {} THEN LastOf("bank") ELSE {}}
  \cup {S("read", << c >>, << i >>, "") : c \in Ends("w"), i \in {1, 4}}
  \cup {S("readbank", << c >>, << >>, "") : c \in LastOf("w")}
  \cup {S("inverse", << c >>, << >>, "") : c \in LastOf("w")}
  \cup {S("flag", << c >>, << 1 >>, "orthogonal") : c \in FirstOf("w")}
  \cup {S("qmf", << c >>, << >>, "") : c \in LastOf("list")}

Base == << L(V(1)), L(V(2)), L(V(3)), L(V(4)), [k |-> "bank", r |-> << 1, 2, 3, 4 >>] >>
Init == H = Base /\ hist = << >>
Next == /\ Len(hist) < MaxSteps
        /\ \E st \in Steps :
             LET A == Apply(H, st) IN
               /\ H' = A.h
               /\ hist' = Append(hist, st)
               /\ IF Len(hist') = MaxSteps THEN PrintT("HIST " \o ToJson(hist')) ELSE TRUE
Spec == Init /\ [][Next]_vars

\* a wavelet's filters are those it was made from, whatever happens to lists and banks
Fixed == [][\A c \in DOMAIN H : H[c].k = "w" => H'[c].k = "w" /\ H'[c].f = H[c].f]_vars
\* every wavelet has four filters of one even length
Shape == \A c \in Of("w") : LET f == H[c].f IN \A i \in 1..4 : Len(f[i]) % 2 = 0 /\ Len(f[i]) = Len(f[1])
\* exchanging twice gives the same bank
Involution == \A c \in Of("w") : Exchange(Exchange(H[c].f)) = H[c].f
=============================================================================
