------------------------------ MODULE MC_Forest ------------------------------
(* Which histories tell copies of trees that are trees of their own from copies that are not.  *)
(* Trees are heaps of cells: data cell, known size, children, parent.  Nodes 1 the root,           *)
(* 2 and 3 its parts, 4 a part of 2.  Designs of copying: everything new; the children are the        *)
(* source's; the data arrays are the source's; sizes are forgotten; only what lies below the          *)
(* copied node is new, its ancestors are the source's; what was deleted comes back (children that       *)
(* could be computed are); an edited node is computed again.                                         *)
EXTENDS Util, Json
CONSTANTS MaxLen
Designs == { "all", "children", "arrays", "sizes", "below", "fresh" }
Nodes == { 1, 2, 3, 4 }
Up(n) == IF n = 4 THEN 2 ELSE 1
\* specification: tree = [node -> value or 0 (no node)], sizes known or not.  Values are tokens:
\* 10 + node: computed from unedited ancestors; others: fresh tokens
VARIABLES des, F, H, hist, told, tok
vars == << des, F, H, hist, told, tok >>
NoNode == [v |-> 0, z |-> TRUE]
Tree0 == [n \in Nodes |-> IF n = 1 THEN [v |-> 11, z |-> TRUE] ELSE NoNode]
\* computed value of a part: depends on the parent's value
Part(pv, n) == (pv * 4) + n
RECURSIVE Make(_, _)
Make(T, n) ==
  IF T[n].v # 0 THEN T
  ELSE LET T1 == Make(T, Up(n))
           sib == { m \in Nodes \ {1} : Up(m) = Up(n) /\ T1[m].v = 0 }
       IN [m \in Nodes |-> IF m \in sib THEN [v |-> Part(T1[Up(n)].v, m), z |-> TRUE] ELSE T1[m]]
Below(n) == { m \in Nodes : m = n \/ (m = 4 /\ n = 2) \/ (n = 1) }
\* reconstruction folds the leaves' values; a node of unknown size gives another result
RECURSIVE Rec(_, _)
Rec(T, n) ==
  LET ch == { m \in Nodes \ {1} : Up(m) = n /\ T[m].v # 0 }
      rs == [m \in ch |-> Rec(T, m)]
      s(m) == IF m \in ch THEN rs[m] ELSE 0
  IN IF ch = {} THEN T[n].v ELSE ((1 + s(2) + (3 * s(3)) + (5 * s(4))) % 9973) + (IF T[n].z THEN 0 ELSE 10000)
StepT(T, ev, t) ==
  CASE ev.op = "get" -> [t |-> Make(T, ev.node), out |-> Make(T, ev.node)[ev.node].v]
    [] ev.op = "set" -> [t |-> [T EXCEPT ![ev.node] = [v |-> t, z |-> TRUE]], out |-> 0]
    [] ev.op = "del" -> [t |-> [m \in Nodes |-> IF m \in Below(ev.node) THEN NoNode ELSE T[m]], out |-> 0]
    [] ev.op = "poke" -> [t |-> [T EXCEPT ![ev.node].v = t], out |-> 0]
    [] ev.op = "rec" -> [t |-> IF ev.update /\ \E m \in { 2, 3 } : T[m].v # 0 THEN [T EXCEPT ![1].v = Rec(T, 1)] ELSE T, out |-> Rec(T, 1)]
Shown(T) == [n \in Nodes |-> T[n].v]
(* implementation: H = [cells: cell -> value, trees: << [node -> [c: cell or 0, z] ] >>, link: tree -> tree whose root part it shares] *)
Cell(h, k, n) == h.trees[h.of[k][n]][n]
Val(h, k, n) == LET q == Cell(h, k, n) IN IF q.c = 0 THEN 0 ELSE h.cells[q.c]
View(h, k) == [n \in Nodes |-> [v |-> Val(h, k, n), z |-> Cell(h, k, n).z]]
\* write tree T into place: nodes that changed get new cells, poked ones keep theirs
Store(h, k, T, keep) ==
  LET ch == { n \in Nodes : T[n] # View(h, k)[n] }
      new == SetToSeq({ n \in ch : T[n].v # 0 /\ n # keep })
      num(n) == Len(h.cells) + (CHOOSE i \in DOMAIN new : new[i] = n)
      cells1 == h.cells \o Map(LAMBDA n : T[n].v, new)
      cells2 == IF keep \in ch THEN [cells1 EXCEPT ![Cell(h, k, keep).c] = T[keep].v] ELSE cells1
      put(tr, j) == [n \in Nodes |-> IF n \in ch /\ h.of[k][n] = j /\ n # keep
                                      THEN [c |-> IF T[n].v = 0 THEN 0 ELSE num(n), z |-> T[n].z] ELSE tr[n]]
  IN [h EXCEPT !.cells = cells2, !.trees = [j \in DOMAIN h.trees |-> put(h.trees[j], j)]]
Dup(h, k, n) ==
  LET me == Len(h.trees) + 1
      T0 == View(h, k)
      T == IF des = "sizes" THEN [m \in Nodes |-> [T0[m] EXCEPT !.z = FALSE]]
           ELSE IF des = "fresh" THEN [m \in Nodes |-> IF m = 1 \/ T0[m].v = 0 THEN T0[m] ELSE Make(Tree0, m)[m]] ELSE T0
      order == SetToSeq(Nodes)
      live == SelectSeq(order, LAMBDA m : T[m].v # 0)
      num(m) == Len(h.cells) + (CHOOSE i \in DOMAIN live : live[i] = m)
      tr == [m \in Nodes |-> IF T[m].v = 0 THEN [c |-> 0, z |-> TRUE]
                             ELSE [c |-> IF des = "arrays" THEN Cell(h, k, m).c ELSE num(m), z |-> T[m].z]]
      mine(m) == CASE des = "children" -> m = 1 [] des = "below" -> m \in Below(n) [] OTHER -> TRUE
  IN [cells |-> h.cells \o Map(LAMBDA m : T[m].v, live), trees |-> Append(h.trees, tr),
      of |-> Append(h.of, [m \in Nodes |-> IF mine(m) THEN me ELSE h.of[k][m]])]
Init == /\ des \in Designs /\ F = << Tree0 >> /\ hist = << >> /\ told = FALSE /\ tok = 20
        /\ H = [cells |-> << 11 >>, trees |-> << [n \in Nodes |-> [c |-> IF n = 1 THEN 1 ELSE 0, z |-> TRUE]] >>, of |-> << [n \in Nodes |-> 1] >>]
Differ(f, h) == \E k \in DOMAIN f : Shown(f[k]) # Shown(View(h, k))
Ev(k, op, n) == [tree |-> k, op |-> op, node |-> n]
Do(ev) ==
  LET k == ev.tree
      A == StepT(F[k], ev, tok)
      B == StepT(View(H, k), ev, tok)
  IN /\ F' = [F EXCEPT ![k] = A.t]
     /\ H' = Store(H, k, B.t, IF ev.op = "poke" THEN ev.node ELSE 0)
     /\ told' = (A.out # B.out \/ Differ(F', H'))
     /\ hist' = Append(hist, ev) /\ tok' = tok + 1 /\ UNCHANGED des
Next == /\ ~told /\ Len(hist) < MaxLen
        /\ \E k \in DOMAIN F :
             \/ /\ Len(F) < 2
                /\ \E n \in { m \in Nodes : F[k][m].v # 0 } :
                     /\ F' = Append(F, F[k]) /\ H' = Dup(H, k, n)
                     /\ hist' = Append(hist, Ev(k, "dup", n)) /\ told' = Differ(F', H') /\ tok' = tok /\ UNCHANGED des
             \/ \E n \in { 2, 4 } : F[k][n].v = 0 /\ Do(Ev(k, "get", n))
             \/ \E n \in { 2, 3 } : F[k][n].v # 0 /\ (Do(Ev(k, "set", n)) \/ Do(Ev(k, "poke", n)))
             \/ \E n \in { 2, 4 } : F[k][n].v # 0 /\ Do(Ev(k, "del", n))
             \/ \E u \in BOOLEAN : Do([tree |-> k, op |-> "rec", update |-> u])
Spec == Init /\ [][Next]_vars
Sound == des = "all" => ~told
Emit == told => PrintT("FOR " \o ToJson([design |-> des, history |-> hist]))
=============================================================================
