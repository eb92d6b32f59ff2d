------------------------------- MODULE Objects -------------------------------
(* Wavelet objects with settable attributes, and their copies.  The state is a sequence of   *)
(* objects, each a record [made, at] (what it was constructed from; attribute -> value in      *)
(* eighths) or Gone.  What an object reports is a view of its attributes: the bounds are none     *)
(* while they are equal, frequencies and order are none while they are not positive.              *)
EXTENDS Util

Gone == [gone |-> TRUE]
None == -999999
IsGone(o) == Has(o, "gone")
Flags == { "orthogonal", "biorthogonal", "complex_cwt" }
Report1(at, a) ==
  CASE a = "lower_bound" -> IF at["lower_bound"] = at["upper_bound"] THEN None ELSE at[a]
    [] a = "upper_bound" -> IF at["lower_bound"] = at["upper_bound"] THEN None ELSE at[a]
    [] a \in { "center_frequency", "bandwidth_frequency" } -> IF at[a] > 0 THEN at[a] ELSE None
    [] a = "fbsp_order" -> IF at[a] # 0 THEN at[a] ELSE None
    [] OTHER -> at[a]
ReportOf(o) == [a \in DOMAIN o.at |-> Report1(o.at, a)]
\* what a fresh object has, from what it reports
Known(rep) == [a \in DOMAIN rep |-> IF rep[a] = None THEN 0 ELSE rep[a]]
Stored(a, v) == IF a \in Flags THEN (IF v # 0 THEN 8 ELSE 0) ELSE v

After(os, ev) ==
  CASE ev.e = "set" -> [os EXCEPT ![ev.o].at[ev.a] = Stored(ev.a, ev.v)]
    [] ev.e = "copy" -> os \o Map(LAMBDA k : os[k], ev.from)         \* one call may copy several objects
    [] ev.e = "drop" -> [os EXCEPT ![ev.o] = Gone]
    [] ev.e = "deny" -> os                                            \* an assignment that must be refused
    [] ev.e = "use" -> os
Identity(o) == << o.made, o.at >>
=============================================================================
