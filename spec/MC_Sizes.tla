------------------------------ MODULE MC_Sizes -------------------------------
(* Which sizes and depths fit together.  A request is walked level by level as the      *)
(* transforms do; it ends "done" with the lengths produced, or "refused" at the first      *)
(* level that cannot be taken.  TLC visits every request of the bounded domain.             *)
EXTENDS Util, Json, TLC
CONSTANTS MaxN, MaxLevel, Fs, ModeSet, Kinds
VARIABLES kind, mode, F, left, n, made, verdict, asked
vars == << kind, mode, F, left, n, made, verdict, asked >>

Down(len) == IF mode = "periodization" THEN (len + 1) \div 2 ELSE (len + F - 1) \div 2
Up(len) == IF mode = "periodization" THEN 2 * len ELSE 2 * len - F + 2
RECURSIVE Twos(_)
Twos(k) == IF k = 0 \/ k % 2 = 1 THEN 0 ELSE 1 + Twos(k \div 2)
Init ==
  /\ kind \in Kinds
  /\ F \in Fs
  /\ verdict = "busy"
  /\ \/ /\ kind \in {"wavedec", "downcoef", "swt"}
        /\ mode \in (IF kind = "swt" THEN {"periodization"} ELSE ModeSet)
        /\ n \in 0..MaxN
        /\ left \in -2..MaxLevel
        /\ made = << >>
        /\ asked \in (IF kind = "swt" THEN [n : {n}, level : {left}, start : -1..3] ELSE [n : {n}, level : {left}])
     \/ /\ kind \in {"waverec", "idwt"}
        /\ mode \in ModeSet
        /\ n \in 0..MaxN
        /\ made = << >>
        /\ left \in (IF kind = "idwt" THEN {1} ELSE 1..2)
        /\ asked \in [n : {n}, d : IF left = 1 THEN { << a >> : a \in 0..MaxN } ELSE { << a, b >> : a, b \in 1..MaxN }]
     \/ /\ kind = "iswt"
        /\ mode = "periodization"
        /\ n \in 1..MaxN
        /\ made = << >>
        /\ left \in 1..2
        /\ asked \in [n : {n}, d : IF left = 1 THEN { << a >> : a \in 1..MaxN } ELSE { << a, b >> : a, b \in { q \in 1..MaxN : q \in {n - 1, n, n + 1, n \div 2, 2 * n} } }]

Reflects == mode \in {"reflect", "antireflect"}
Refuse == verdict' = "refused" /\ UNCHANGED << kind, mode, F, left, n, made, asked >>
Done == verdict' = "done" /\ UNCHANGED << kind, mode, F, left, n, made, asked >>

AskDec ==
  /\ verdict = "busy" /\ kind \in {"wavedec", "downcoef"}
  /\ IF left < (IF kind = "downcoef" /\ made = << >> THEN 1 ELSE 0) THEN Refuse
     ELSE IF left = 0 THEN Done
     ELSE IF n = 0 \/ (n = 1 /\ Reflects) THEN Refuse
     ELSE /\ n' = Down(n)
          /\ made' = << Down(n) >> \o made
          /\ left' = left - 1
          /\ UNCHANGED << kind, mode, F, verdict, asked >>
AskSwt ==
  /\ verdict = "busy" /\ kind = "swt"
  /\ IF left < 1 \/ asked.start < 0 \/ n = 0 THEN Refuse
     ELSE IF Twos(n) < asked.start + left THEN Refuse
     ELSE /\ made' = Tab(left, LAMBDA k : n)
          /\ verdict' = "done"
          /\ UNCHANGED << kind, mode, F, left, n, asked >>
AskRec ==
  /\ verdict = "busy" /\ kind \in {"waverec", "idwt"}
  /\ IF left = 0 THEN Done
     ELSE LET d == asked.d[Len(asked.d) - left + 1]
              a == IF kind = "waverec" /\ n = d + 1 THEN d ELSE n      \* the extra sample of a level is dropped
          IN IF a # d \/ a = 0 \/ Up(a) < 1 THEN Refuse
             ELSE /\ n' = Up(a)
                  /\ left' = left - 1
                  /\ UNCHANGED << kind, mode, F, made, verdict, asked >>
AskIswt ==
  /\ verdict = "busy" /\ kind = "iswt"
  /\ IF (\E k \in DOMAIN asked.d : asked.d[k] # n) \/ Twos(n) < Len(asked.d) THEN Refuse ELSE Done
Next == AskDec \/ AskSwt \/ AskRec \/ AskIswt
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

\* every walk ends
Ends == <>(verdict # "busy")
\* synthesis undoes the bookkeeping of analysis: what a level made is accepted by the inverse and gives the length back, or one more
Fits == (kind = "wavedec" /\ made # << >> /\ verdict = "done") =>
          LET before == IF Len(made) = 1 THEN asked.n ELSE made[2]
              up == Up(made[1])
          IN up = before \/ up = before + 1
\* depth never creates room: lengths settle at F - 1 (or 1 when periodized)
Settles == (kind = "wavedec" /\ Len(made) > 1) => made[1] <= Max2(made[2], IF mode = "periodization" THEN 1 ELSE F - 1)
Emit == verdict = "busy" \/ PrintT("SIZ " \o ToJson([kind |-> kind, mode |-> mode, F |-> F, asked |-> asked, ok |-> (verdict = "done"), n |-> n, made |-> made]))
=============================================================================
