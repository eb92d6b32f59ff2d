------------------------------- MODULE MC_Threads ------------------------------
(* Two calls made by two threads at once, each in Stages steps: the arguments are read, work   *)
(* space is written, used, and the result delivered.  With work space of its own, each call      *)
(* delivers its own value in every interleaving (Alone).  With work space shared between calls,  *)
(* or a table that is announced before it is filled, some interleavings tell; the schedules of    *)
(* at most MaxTurns turns are emitted and driven through the real code.                          *)
EXTENDS Util, Json
CONSTANTS Stages, MaxTurns
Threads == {1, 2}
Designs == { "own", "shared", "announced" }
VARIABLES des, at, space, table, mine, out, sched
vars == << des, at, space, table, mine, out, sched >>
Init == /\ des \in Designs /\ at = [t \in Threads |-> 0] /\ space = 0 /\ table = "empty"
        /\ mine = [t \in Threads |-> 0] /\ out = [t \in Threads |-> 0] /\ sched = << >>
Turns(s) == Cardinality({ i \in 1..(Len(s) - 1) : s[i] # s[i + 1] })
\* stage 1 writes work space, stages 2 .. Stages-1 use it, stage Stages delivers
Step(t) ==
  /\ at[t] < Stages
  /\ at' = [at EXCEPT ![t] = @ + 1] /\ UNCHANGED des
  /\ sched' = Append(sched, t)
  /\ Turns(sched') <= MaxTurns
  /\ LET i == at[t] + 1 IN
     CASE des = "own" ->
            /\ mine' = IF i = 1 THEN [mine EXCEPT ![t] = t] ELSE mine
            /\ out' = IF i = Stages THEN [out EXCEPT ![t] = mine[t]] ELSE out
            /\ UNCHANGED << space, table >>
       [] des = "shared" ->
            /\ space' = IF i = 1 THEN t ELSE space
            /\ mine' = IF i > 1 THEN [mine EXCEPT ![t] = IF @ \in {0, space} THEN space ELSE 9] ELSE mine
            /\ out' = IF i = Stages THEN [out EXCEPT ![t] = mine'[t]] ELSE out
            /\ UNCHANGED table
       [] des = "announced" ->
            /\ table' = IF i = 1 /\ table = "empty" THEN "announced" ELSE IF i = 2 /\ mine[t] = 1 THEN "full" ELSE table
            /\ mine' = IF i = 1 /\ table = "empty" THEN [mine EXCEPT ![t] = 1]           \* this thread fills it
                       ELSE IF i = 2 /\ mine[t] = 0 THEN [mine EXCEPT ![t] = IF table = "full" THEN 1 ELSE 9] ELSE mine
            /\ out' = IF i = Stages THEN [out EXCEPT ![t] = IF mine[t] = 1 THEN t ELSE 9] ELSE out
            /\ UNCHANGED space
Next == \E t \in Threads : Step(t)
Spec == Init /\ [][Next]_vars
Done == \A t \in Threads : at[t] = Stages
Alone == des = "own" /\ Done => \A t \in Threads : out[t] = t
Emit == Done => PrintT("SCH " \o ToJson([design |-> des, sched |-> sched, told |-> \E t \in Threads : out[t] # t]))
=============================================================================
