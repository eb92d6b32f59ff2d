------------------------------ MODULE MC_Objects ------------------------------
(* Which histories tell a copy that carries everything from one that does not.  Designs of     *)
(* copying: everything is carried; one attribute is constructed afresh; what is carried is what    *)
(* the source reports (nothing, where it reports nothing); state is shared with the source, until   *)
(* either goes or for ever; only attributes of the first generation are carried.  The shortest       *)
(* histories that tell a design from the specification are emitted and replayed into the library.      *)
EXTENDS Objects, Json
CONSTANT MaxLen
At == { "lower_bound", "upper_bound", "fbsp_order", "orthogonal" }
Default == [a \in At |-> IF a = "upper_bound" THEN 8 ELSE 0]
Designs == { "all", "reported", "shared", "second", "released" } \cup At
VARIABLES des, os, im, cells, hist, told
\* im: object -> [cell, gen]; cells: cell -> attributes
vars == << des, os, im, cells, hist, told >>
Init == /\ des \in Designs /\ os = << [made |-> 1, at |-> Default] >> /\ im = << [cell |-> 1, gen |-> 0] >>
        /\ cells = << Default >> /\ hist = << >> /\ told = FALSE
Copied(k) ==
  LET c == cells[im[k].cell] IN
  CASE des \in At -> [c EXCEPT ![des] = Default[des]]
    [] des = "reported" -> [a \in At |-> IF Report1(c, a) = None THEN Default[a] ELSE c[a]]
    [] des = "second" -> IF im[k].gen > 0 THEN Default ELSE c
    [] OTHER -> c
Shows == [k \in DOMAIN os |-> IF IsGone(os[k]) THEN Gone ELSE ReportOf(os[k])]
Impl(i, c) == [k \in DOMAIN os' |-> IF IsGone(os'[k]) THEN Gone ELSE [a \in At |-> Report1(c[i[k].cell], a)]]
Take(ev) == /\ ~told /\ Len(hist) < MaxLen
            /\ os' = After(os, ev) /\ hist' = Append(hist, ev) /\ UNCHANGED des
            /\ told' = ([k \in DOMAIN os' |-> IF IsGone(os'[k]) THEN Gone ELSE ReportOf(os'[k])] # Impl(im', cells'))
Set(o, a, v) == /\ ~IsGone(os[o])
                /\ cells' = [cells EXCEPT ![im[o].cell][a] = v] /\ UNCHANGED im
                /\ Take([e |-> "set", o |-> o, a |-> a, v |-> v])
Copy(o) == /\ ~IsGone(os[o]) /\ Len(os) < 3
           /\ IF des \in { "shared", "released" } THEN im' = Append(im, [cell |-> im[o].cell, gen |-> 1]) /\ UNCHANGED cells
              ELSE im' = Append(im, [cell |-> Len(cells) + 1, gen |-> im[o].gen + 1]) /\ cells' = Append(cells, Copied(o))
           /\ Take([e |-> "copy", from |-> << o >>])
\* the last release of shared state spoils it for the others
Drop(o) == /\ ~IsGone(os[o]) /\ \E k \in DOMAIN os : k # o /\ ~IsGone(os[k])
           /\ cells' = IF des = "released" THEN [cells EXCEPT ![im[o].cell] = [a \in At |-> 99]] ELSE cells
           /\ UNCHANGED im
           /\ Take([e |-> "drop", o |-> o])
Next == \E o \in DOMAIN os : Copy(o) \/ Drop(o) \/ \E a \in At, v \in { 0, 8 } : os[o] # Gone /\ os[o].at[a] # v /\ Set(o, a, v)
Spec == Init /\ [][Next]_vars
Sound == des = "all" => ~told
Emit == told => PrintT("COP " \o ToJson([design |-> des, history |-> hist]))
=============================================================================
