----------------------------- MODULE MC_Signals -----------------------------
(* Every signal at every length up to MaxN: its pieces lie inside the signal, what a mirrored  *)
(* piece repeats exists, nothing is divided by zero, a window never overlaps itself.  Signals     *)
(* at the lengths asked for (IOEnv.ASK), the answers to requests and the datasets are written     *)
(* for the harness.                                                                            *)
EXTENDS Signals, Json, IOUtils
CONSTANT MaxN
Ask == ndJsonDeserialize(IOEnv.ASK)
VARIABLES s, n
Lens(x) == IF x \in DOMAIN Fixed THEN { Fixed[x] } ELSE 1..MaxN
Init == /\ s \in RangeOf(Listed)
        /\ n = IF s \in DOMAIN Fixed THEN Fixed[s] ELSE 1
Next == /\ s \notin DOMAIN Fixed /\ n < MaxN
        /\ n' = n + 1 /\ UNCHANGED s
Spec == Init /\ [][Next]_<< s, n >>
RECURSIVE Sound(_, _, _)
Sound(e, lo, hi) ==
  CASE e[1] \in { "int", "pi", "i", "m", "in", "x" } -> TRUE
    [] e[1] = "again" -> \A i \in lo..hi : e[2] - i \in 1..n
    [] e[1] = "sum" -> Sound(e[3], lo, hi)
    [] e[1] = "mod" -> e[3] > 0 /\ Sound(e[2], lo, hi)
    [] e[1] = "div" -> e[3] # K(0) /\ Sound(e[2], lo, hi) /\ Sound(e[3], lo, hi)
    [] OTHER -> \A k \in 2..Len(e) : Sound(e[k], lo, hi)
Lay == TLCEval(Layers(s, n))
Inside == \A k \in DOMAIN Lay : Lay[k].lo <= Lay[k].hi => Lay[k].lo >= 1 /\ Lay[k].hi <= n
Total1 == \A k \in DOMAIN Lay : Lay[k].lo <= Lay[k].hi => Sound(Lay[k].re, Lay[k].lo, Lay[k].hi) /\ (Has(Lay[k], "im") => Sound(Lay[k].im, Lay[k].lo, Lay[k].hi))
\* the whole of a smooth signal is one piece; the others are covered but for the silent parts
Covered == (s \notin { "Piece-Regular" }) => UNION { Lay[k].lo .. Lay[k].hi : k \in DOMAIN Lay } = 1..n
Window == /\ s = "HypChirps" => LET c == CeilDiv(n, 10) m == HypM(n) IN c + m - 1 <= n /\ 2 * (m \div 4) <= m
          /\ s = "Chirps" => 2 * (n \div 8) <= n
Inv == Inside /\ Total1 /\ Covered /\ Window
ReqN == << << >>, << 0, 1 >>, << -3, 1 >>, << 7, 2 >>, << 1, 2 >>, << 1, 1 >>, << 2, 1 >>, << 64, 1 >> >>
Reqs == << "list", "nosuch", "" >> \o Listed
Post ==
  JsonSerialize(IOEnv.OUT, [listed |-> Listed, datasets |-> Datasets, quarters |-> Quarters,
    requests |-> FlattenSeq(Map(LAMBDA x : Map(LAMBDA q : [name |-> x, n |-> q, answer |-> Answer(x, q)], ReqN), Reqs)),
    signals |-> Map(LAMBDA a : [name |-> a.name, n |-> a.n, layers |-> Layers(a.name, a.n), finish |-> Finish(a.name),
                                loose |-> a.name = "HypChirps" /\ HypHalf(a.n)], Ask)])
Emit == s # "Gabor" \/ Post
=============================================================================
