------------------------------- MODULE MC_Types -------------------------------
(* Precision rules.  A call folds the types of the arrays it is given, in the order in   *)
(* which it meets them, into the type of its result: single and double precision are kept, *)
(* half becomes single, everything else real double, extended complex complex128, and two    *)
(* different types meet in double (complex if either is).  TLC checks that the order in        *)
(* which levels and axes are processed cannot matter, and prints every call for replay.         *)
EXTENDS Calls, Json
CONSTANTS One, Two, Forward, Backward
VARIABLES fn, slots, seen, acc
vars == << fn, slots, seen, acc >>

None == "none"
NSlots == [idwt |-> 2, upcoef |-> 1, idwt2 |-> 4, idwtn |-> 4, waverec |-> 3, waverec2 |-> 7, waverecn |-> 7, iswt |-> 3, iswt2 |-> 7, iswtn |-> 7,
           fswaverecn |-> 1, packrec |-> 2, packrec2 |-> 4, packrecn |-> 4]
Missing == [idwt |-> {{}, {1}, {2}}, upcoef |-> {{}}, idwt2 |-> {{}, {1}, {3}, {2, 4}}, idwtn |-> {{}, {1}, {3}, {1, 2}, {3, 4}}, waverec |-> {{}, {1}, {2}, {3}},
            waverec2 |-> {{}, {2}, {5, 7}}, waverecn |-> {{}, {1}, {2}, {5, 7}}, iswt |-> {{}}, iswt2 |-> {{}}, iswtn |-> {{}}, fswaverecn |-> {{}},
            packrec |-> {{}, {1}, {2}}, packrec2 |-> {{}, {1}, {2, 3, 4}}, packrecn |-> {{}, {1}, {2, 3, 4}}]
Patterns(n) == { {}, {1}, 2..n, { k \in 1..n : k % 2 = 0 }, {n} }

Kept(t) == OutType({t})
Join(a, b) == IF a = None THEN b ELSE IF b = None \/ a = b THEN a
              ELSE IF {a, b} \cap {"complex64", "complex128"} # {} THEN "complex128" ELSE "float64"
Init ==
  /\ acc = None
  /\ seen = {}
  /\ \/ fn \in Forward /\ slots \in { << t >> : t \in One }
     \/ /\ fn \in Backward
        /\ \E t \in Two, u \in Two, p \in Patterns(NSlots[fn]), m \in Missing[fn] :
             /\ (t = u) <=> (p = {})
             /\ slots = [k \in 1..NSlots[fn] |-> IF k \in m THEN None ELSE IF k \in p THEN u ELSE t]
Read(k) ==
  /\ k \in DOMAIN slots \ seen
  /\ seen' = seen \cup {k}
  /\ acc' = Join(acc, IF slots[k] = None THEN None ELSE Kept(slots[k]))
  /\ UNCHANGED << fn, slots >>
\* some neighbouring orders: first to last, or from the last one back
Next == \E k \in DOMAIN slots : (seen = 1..(k - 1) \/ seen = (k + 1)..Len(slots)) /\ Read(k)
Spec == Init /\ [][Next]_vars
Done == seen = DOMAIN slots
Given == { slots[k] : k \in DOMAIN slots } \ {None}
OrderFree == Done => acc = OutType(Given)
Settled == acc # None => Kept(acc) = acc
Wide == (Done /\ \E t \in Given : t \in {"float64", "complex128"}) => acc \in {"float64", "complex128"}
Complex == Done => (acc \in {"complex64", "complex128"} <=> \E t \in Given : t \in {"complex64", "complex128", "complex256"})
Emit == Done => PrintT("TYP " \o ToJson([fn |-> fn, slots |-> slots, out |-> acc]))
=============================================================================
