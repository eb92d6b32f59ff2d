------------------------------ MODULE MC_Domain ------------------------------
(* All requests with at most Budget arguments away from the plain request.             *)
EXTENDS Domain, Json, IOUtils, TLC
CONSTANT Budget
VARIABLES fn, args, moved
vars == << fn, args, moved >>
Init == /\ fn \in FnSet
        /\ args = Plain(fn)
        /\ moved = {}
Deviate(f) ==
  /\ f \notin moved
  /\ Cardinality(moved) < Budget
  /\ \E c \in Classes(fn, f) \ {Plain(fn)[f]} : args' = [args EXCEPT ![f] = c]
  /\ moved' = moved \cup {f}
  /\ UNCHANGED fn
Next == \E f \in Fields(fn) : Deviate(f)
Spec == Init /\ [][Next]_vars
v == Verdict(fn, args)
canon == Canon(fn, args)
PlainAccepted == moved = {} => v = "A"
\* spelling never decides whether a request is accepted
Interchange == v = "A" => Verdict(fn, canon) = "A" /\ Canon(fn, canon) = canon
\* undoing one deviation of an accepted request leaves it accepted; a rejected one has a rejected argument by itself
Simpler == v = "A" => \A f \in moved : Verdict(fn, [args EXCEPT ![f] = Plain(fn)[f]]) = "A"
Culprit == v = "R" => \E f \in moved : Verdict(fn, [Plain(fn) EXCEPT ![f] = args[f]]) \in {"R", "F"} /\ ClassVerdict(fn, f, args[f]) = "R"
Emit == PrintT("REQ " \o ToJson([fn |-> fn, a |-> args, v |-> v, canon |-> canon]))
=============================================================================
