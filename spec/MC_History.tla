------------------------------- MODULE MC_History ------------------------------
(* Which histories tell a library without memory from one that has some.  An implementation    *)
(* keeps a memo: what it once returned, under a name made from part of the call.  Designs      *)
(* differ in what the name leaves out (which function, which wavelet object, its content,        *)
(* which array, its content), in whether the memo's own object is handed out, in whether an     *)
(* error leaves something in the memo, in whether every call writes to the same output.          *)
(* The sound designs are indistinguishable from History in every behaviour (Sound); every other  *)
(* design is told apart by a short history, and the shortest ones, up to renaming, are emitted:  *)
(* these are the histories replayed into the library.                                          *)
EXTENDS History, Json
CONSTANTS MaxLen, MaxFaults
Slots == {1, 2}
Fs == {1, 2}
Wn == {"all", "slot", "family"}      \* content; the object only; only what objects of the same kind share
Faults(d) == LET F(b) == IF b THEN 1 ELSE 0 IN F(~d.f) + F(d.w # "all") + F(d.d # "all") + F(d.handed) + F(d.dirty) + F(d.once)
Designs ==
  { d \in [memo: BOOLEAN, f: BOOLEAN, w: Wn, d: Wn, handed: BOOLEAN, dirty: BOOLEAN, once: BOOLEAN] :
      /\ ~d.memo => d.f /\ d.w = "all" /\ d.d = "all" /\ ~d.handed
      /\ d.once => ~d.memo /\ ~d.dirty
      /\ Faults(d) <= MaxFaults }
IsSound(d) == /\ ~d.dirty /\ ~d.once
              /\ d.memo => d.f /\ d.w = "all" /\ d.d = "all" /\ ~d.handed
\* first uses are 1, 2 in order: one history per class of renamings
RECURSIVE Canon(_, _, _)
Canon(h, fld, seen) ==
  IF h = << >> THEN TRUE
  ELSE LET ev == Head(h) IN
       IF fld \in DOMAIN ev /\ ev[fld] = 2 /\ ~seen THEN FALSE
       ELSE Canon(Tail(h), fld, seen \/ (fld \in DOMAIN ev /\ ev[fld] = 1))
Ordered(h) == Canon(h, "f", FALSE) /\ Canon(h, "w", FALSE) /\ Canon(h, "d", FALSE)
VARIABLES des, st, memo, cells, where, hist, told
\* cells: cell number -> value; memo: name -> cell; where: result -> cell
vars == << des, st, memo, cells, where, hist, told >>
Part(how, s, c) == IF how = "all" THEN << s, c >> ELSE IF how = "slot" THEN << s, 9 >> ELSE << 9, 9 >>
Name(key) == << IF des.f THEN key[1] ELSE 9, Part(des.w, key[2], key[3]), Part(des.d, key[4], key[5]) >>
New(c) == Cardinality(DOMAIN c) + 1
Junk == << 0, 0, 0, 0, 0 >>
Init == /\ des \in Designs
        /\ st = Start(Slots, Slots) /\ memo = << >> /\ cells = << >> /\ where = << >> /\ hist = << >> /\ told = FALSE
CallEv(f, w, d) == [e |-> "call", t |-> 1, f |-> f, w |-> w, d |-> d, k |-> Cardinality(DOMAIN where) + 1]
Values(c, wh) == [k \in DOMAIN wh |-> c[wh[k]]]
Wrong(s, c, wh) == \E k \in DOMAIN wh : k \in DOMAIN s.held /\ s.held[k].ok /\ c[wh[k]] # s.held[k].key
Take(ev) ==
  /\ ~told /\ Len(hist) < MaxLen
  /\ hist' = Append(hist, ev) /\ Ordered(hist') /\ st' = After(st, ev) /\ UNCHANGED des
  /\ told' = Wrong(st', cells', where')
Call(f, w, d) ==
  LET ev == CallEv(f, w, d)
      key == KeyOf(st, ev)
      hit == des.memo \/ des.dirty
      n == Name(key)
      old == hit /\ n \in DOMAIN memo
      v == IF old THEN cells[memo[n]] ELSE key
      c1 == IF old THEN memo[n] ELSE IF des.once /\ DOMAIN cells # {} THEN 1 ELSE New(cells)
      cs1 == (c1 :> v) @@ cells
      c2 == IF des.handed \/ ~des.memo \/ des.once THEN c1 ELSE New(cs1)
      cs2 == (c2 :> v) @@ cs1
  IN /\ memo' = IF des.memo /\ ~old THEN (n :> c1) @@ memo ELSE IF des.dirty /\ ~des.memo /\ old THEN [m \in DOMAIN memo \ {n} |-> memo[m]] ELSE memo
     /\ cells' = cs2
     /\ where' = (ev.k :> c2) @@ where
     /\ Take(ev)
Turn(w) == UNCHANGED << memo, cells, where >> /\ Take([e |-> "turn", w |-> w])
Poke(d) == UNCHANGED << memo, cells, where >> /\ Take([e |-> "poke", d |-> d])
Spoil(k) == /\ st.held[k].ok
            /\ cells' = [cells EXCEPT ![where[k]] = Junk]
            /\ UNCHANGED << memo, where >>
            /\ Take([e |-> "spoil", k |-> k])
Fail(f, w, d) ==
  LET key == KeyOf(st, CallEv(f, w, d))
      c == New(cells)
      n == Name(key)
  IN /\ IF des.dirty /\ n \notin DOMAIN memo
        THEN cells' = (c :> Junk) @@ cells /\ memo' = (n :> c) @@ memo
        ELSE UNCHANGED << cells, memo >>
     /\ UNCHANGED where
     /\ Take([e |-> "fail", f |-> f, w |-> w, d |-> d])
Next == \/ \E f \in Fs, w \in Slots, d \in Slots : Call(f, w, d) \/ Fail(f, w, d)
        \/ \E s \in Slots : Turn(s) \/ Poke(s)
        \/ \E k \in DOMAIN st.held : Spoil(k)
Spec == Init /\ [][Next]_vars
Sound == IsSound(des) => ~told
Emit == /\ hist # << >> \/ PrintT("DES " \o ToJson([design |-> des, sound |-> IsSound(des)]))
        /\ ~told \/ PrintT("HIS " \o ToJson([design |-> des, history |-> hist]))
=============================================================================
